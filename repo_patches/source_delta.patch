From 4bcc2cde714a1ff5a044e91c64df629c9355cb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:29 +0000
Subject: [PATCH 01/25] fix: return a syntax error for lines in an unexpected
 order

A continuation line at the start of a file, or two msgid lines in a row,
made the parser panic because the transition does not exist.
---
 rust/src/poparser.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index abd1316..2367ff2 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -154,7 +154,19 @@ impl POFileParser {
     ) -> Result<(), SyntaxError> {
         let next_transition = (*symbol, self.current_state);
         let (action, next_state) =
-            *TRANSITIONS.get(&next_transition).unwrap();
+            match TRANSITIONS.get(&next_transition) {
+                Some(transition) => *transition,
+                None => {
+                    return Err(SyntaxError::Generic {
+                        maybe_filename: MaybeFilename::new(
+                            &self.file.options.path_or_content,
+                            self.content_is_path,
+                        ),
+                        line: self.current_line,
+                        index: 0,
+                    });
+                }
+            };
 
         (transition_fn_factory(action)?)(self)?;
         if action != St::MC {
-- 
2.43.0


From 0623c80e488cf9d29368943c095d5956262ca005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:29 +0000
Subject: [PATCH 02/25] fix: reject string values not enclosed by double quotes

A value made of a single quote, or starting with another character,
made the parser panic or lose its first character.
---
 rust/src/poparser.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 2367ff2..7630239 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -745,17 +745,19 @@ fn maybe_raise_unescaped_double_quote_found_error(
     path_or_content: &str,
     index_offset: usize,
 ) -> Result<(), SyntaxError> {
-    // Check if last character is not a double quote
+    // Check that the text is enclosed by double quotes
     // to prevent slicing out of bounds
-    let text_chars = text.chars();
-    if text_chars.last().unwrap_or('\0') != '"' {
+    if text.len() < 2
+        || !text.starts_with('"')
+        || !text.ends_with('"')
+    {
         return Err(SyntaxError::Custom {
             maybe_filename: MaybeFilename::new(
                 path_or_content,
                 path_or_content_is_path,
             ),
             line: linenum,
-            index: text.chars().count() - 1,
+            index: text.chars().count().saturating_sub(1),
             message: format!("unterminated string '{}'", text),
         });
     }
-- 
2.43.0


From deb2fdb5b2cb6e5fd2a2a2df8206c5d52ca260b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:29 +0000
Subject: [PATCH 03/25] fix: validate and slice previous message lines properly

The value of '#|' lines was not checked to be quoted, which made the
parser panic, and continuations or repeated spaces stored a wrong value.
---
 rust/src/poparser.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 7630239..83e7402 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -394,8 +394,17 @@ impl POFileParser {
             }
 
             // Remove the marker and any whitespace following it
+            line = line[tokens[0].len()..].trim_start();
             if tokens[1].starts_with('"') {
                 // Continuation of previous metadata
+                maybe_raise_unescaped_double_quote_found_error(
+                    line,
+                    self.current_line,
+                    self.content_is_path,
+                    &self.file.options.path_or_content,
+                    tokens[0].chars().count() + 2,
+                )?;
+                self.current_token = line.to_string();
                 self.process(&St::MC)?;
                 return Ok(());
             }
@@ -428,10 +437,19 @@ impl POFileParser {
 
             // Remove the keyword and any whitespace
             // between it and the starting quote
-            self.current_token = line
-                [tokens[1].len() + tokens[0].len() + 1..]
-                .trim_start()
-                .to_string();
+            line = line[tokens[1].len()..].trim_start();
+            maybe_raise_unescaped_double_quote_found_error(
+                line,
+                self.current_line,
+                self.content_is_path,
+                &self.file.options.path_or_content,
+                // +3 taking into account the spaces and the first
+                // double quote
+                tokens[0].chars().count()
+                    + tokens[1].chars().count()
+                    + 3,
+            )?;
+            self.current_token = line.to_string();
             self.process(PREV_KEYWORDS.get(&tokens[1]).unwrap())?;
         } else {
             return Err(SyntaxError::Generic {
-- 
2.43.0


From e0bfd70ea0479a3cbec1e2021ea2f68dc34b8ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:29 +0000
Subject: [PATCH 04/25] fix: validate the value of numbered msgstr lines

A numbered msgstr without a quoted value made the parser panic and an
unescaped double quote inside it was accepted.
---
 rust/src/poparser.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 83e7402..5922c78 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -360,6 +360,19 @@ impl POFileParser {
                 }
             };
 
+            let value_start =
+                line.find(']').map_or(line.len(), |i| i + 1);
+            let value = line[value_start..].trim_start();
+            maybe_raise_unescaped_double_quote_found_error(
+                value,
+                self.current_line,
+                self.content_is_path,
+                &self.file.options.path_or_content,
+                // +2 taking into account ' "' (space and first
+                // double quote)
+                line[..value_start].chars().count() + 2,
+            )?;
+            self.current_token = value.to_string();
             self.process(&St::MX)?;
         } else if tokens[0] == "#," {
             if nb_tokens < 2 {
@@ -634,9 +647,7 @@ fn handle_ms(parser: &mut POFileParser) -> Result<(), SyntaxError> {
 
 fn handle_mx(parser: &mut POFileParser) -> Result<(), SyntaxError> {
     let value =
-        &parser.current_token[parser.current_token.find('"').unwrap()
-            + 1
-            ..parser.current_token.len() - 1];
+        &parser.current_token[1..parser.current_token.len() - 1];
     let msgstr_plural_length =
         parser.current_entry.msgstr_plural.len();
     if parser.msgstr_index + 1 > msgstr_plural_length {
-- 
2.43.0


From 34e782ef194e5b36b0907741ed18b2521da62ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:29 +0000
Subject: [PATCH 05/25] fix: reject absurd plural indexes

The index of a numbered msgstr was used unchecked as the length of the
plural translations, overflowing or exhausting the memory.
---
 rust/src/poparser.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 5922c78..0874ebb 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -53,6 +53,12 @@ lazy_static! {
     };
 }
 
+/// Maximum number of plural forms accepted for a message
+///
+/// No language needs more than 6, the limit prevents to allocate
+/// memory based on an arbitrary number found in the file.
+const MAX_PLURAL_FORMS: usize = 1024;
+
 /// Function to transition from a state to another in the parser
 type TransitionFn =
     dyn Fn(&mut POFileParser) -> Result<(), SyntaxError>;
@@ -338,10 +344,10 @@ impl POFileParser {
                 .unwrap();
 
             match index.parse::<usize>() {
-                Ok(index) => {
+                Ok(index) if index < MAX_PLURAL_FORMS => {
                     self.msgstr_index = index;
                 }
-                Err(_) => {
+                _ => {
                     return Err(SyntaxError::Custom {
                         maybe_filename: MaybeFilename::new(
                             &self.file.options.path_or_content,
-- 
2.43.0


From 159a3f0919289c80c9be08f8ada7d3915b99c0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:25 +0000
Subject: [PATCH 06/25] fix: only take as metadata the empty msgid without
 context

An entry with a context and an empty msgid disappeared from the entries,
and a metadata entry without msgstr made the parser panic.
---
 rust/src/poparser.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 0874ebb..3b4304c 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -231,7 +231,12 @@ impl POFileParser {
             self.add_current_entry()?;
         }
 
-        let metadata_entry = self.file.find_by_msgid("");
+        let metadata_entry = self
+            .file
+            .entries
+            .iter()
+            .find(|e| e.msgid.is_empty() && e.msgctxt.is_none())
+            .cloned();
         if let Some(metadata_entry) = metadata_entry {
             // Remove header from entries and store it in metadata hashmap
             self.file.metadata_is_fuzzy =
@@ -239,7 +244,7 @@ impl POFileParser {
             self.file.remove(&metadata_entry);
 
             for metadata_line in
-                metadata_entry.msgstr.unwrap().split('\n')
+                metadata_entry.msgstr.unwrap_or_default().split('\n')
             {
                 let (key, value) =
                     match metadata_line.split_once(": ") {
-- 
2.43.0


From bfb238283e256e32ec9f5087ae2d18edb4fe484c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:25 +0000
Subject: [PATCH 07/25] fix: report errors found reading the lines of a PO file

A line with invalid UTF-8, or a read error, was taken as the end of the
file so the rest of the entries were silently dropped.
---
 rust/src/poparser.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 3b4304c..e7fb001 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -82,14 +82,10 @@ impl LinesHandler<'_> {
 }
 
 impl Iterator for LinesHandler<'_> {
-    type Item = String;
+    type Item = std::io::Result<String>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match self.lines.next() {
-            Some(Ok(line)) => Some(line),
-            Some(Err(_)) => None,
-            None => None,
-        }
+        self.lines.next()
     }
 }
 
@@ -209,14 +205,28 @@ impl POFileParser {
         Ok(())
     }
 
+    fn read_error(&self, error: &std::io::Error) -> SyntaxError {
+        SyntaxError::BasicCustom {
+            maybe_filename: MaybeFilename::new(
+                &self.file.options.path_or_content,
+                self.content_is_path,
+            ),
+            message: error.to_string(),
+        }
+    }
+
     fn parse_with_handler(
         &mut self,
         handler: &mut LinesHandler,
     ) -> Result<(), SyntaxError> {
-        let first_line = handler.next().unwrap_or("".to_string());
+        let first_line = match handler.next() {
+            Some(line) => line.map_err(|e| self.read_error(&e))?,
+            None => "".to_string(),
+        };
         self.parse_line(maybe_lstrip_utf8_bom(&first_line))?;
 
         for line in handler.by_ref() {
+            let line = line.map_err(|e| self.read_error(&e))?;
             self.parse_line(&line)?;
         }
 
-- 
2.43.0


From f142eb85a7d8c06bb81bd4884464ecd885fd5e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:25 +0000
Subject: [PATCH 08/25] fix: return an error if a PO file can not be opened

---
 rust/src/poparser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index e7fb001..8fa6fdf 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -190,7 +190,8 @@ impl POFileParser {
 
     fn parse_file(&mut self) -> Result<(), SyntaxError> {
         let mut buf = BufReader::new(
-            File::open(&self.file.options.path_or_content).unwrap(),
+            File::open(&self.file.options.path_or_content)
+                .map_err(|e| self.read_error(&e))?,
         );
         let mut handler = LinesHandler::new(&mut buf);
         self.parse_with_handler(&mut handler)?;
-- 
2.43.0


From 486b5765bd41f011f32b6129e1dda73042ed83db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:25 +0000
Subject: [PATCH 09/25] fix: parse the content of PO files passed as bytes

The bytes were ignored and the result was always an empty file.
---
 rust/src/poparser.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 8fa6fdf..b661183 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -199,8 +199,13 @@ impl POFileParser {
     }
 
     fn parse_content(&mut self) -> Result<(), SyntaxError> {
-        let content = self.file.options.path_or_content.clone();
-        let mut buf = BufReader::new(content.as_bytes());
+        let content = match &self.file.options.byte_content {
+            Some(byte_content) => byte_content.clone(),
+            None => {
+                self.file.options.path_or_content.clone().into_bytes()
+            }
+        };
+        let mut buf = BufReader::new(content.as_slice());
         let mut handler = LinesHandler::new(&mut buf);
         self.parse_with_handler(&mut handler)?;
         Ok(())
-- 
2.43.0


From 33d15eb84f6d9ec9a439f452a9c773cac5e1d7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:25 +0000
Subject: [PATCH 10/25] fix: keep the byte content converting a FileOptions
 reference

---
 rust/src/file/mod.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/rust/src/file/mod.rs b/rust/src/file/mod.rs
index 53fce6e..8b672f8 100644
--- a/rust/src/file/mod.rs
+++ b/rust/src/file/mod.rs
@@ -108,11 +108,7 @@ impl Default for FileOptions {
 
 impl From<&FileOptions> for FileOptions {
     fn from(options: &Self) -> Self {
-        Self {
-            path_or_content: options.path_or_content.clone(),
-            wrapwidth: options.wrapwidth,
-            ..Default::default()
-        }
+        options.clone()
     }
 }
 
-- 
2.43.0


From e51630a7a55ea2591444a5b00a84c9df2749cc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:25 +0000
Subject: [PATCH 11/25] fix: return an error if a MO file can not be opened

A path that does not exist, or a file without read permission, made the
parser panic.
---
 rust/src/moparser.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/rust/src/moparser.rs b/rust/src/moparser.rs
index 7e83809..49cd9fc 100644
--- a/rust/src/moparser.rs
+++ b/rust/src/moparser.rs
@@ -70,17 +70,20 @@ pub(crate) struct MOFileParser<'a> {
 
 impl MOFileParser<'_> {
     pub fn new<'a>(file_options: FileOptions) -> MOFileParser<'a> {
-        let mut file = MOFile::new(file_options);
+        let file = MOFile::new(file_options);
         let fhandle: Box<dyn SeekRead> = match Path::new(
             &file.options.path_or_content,
         )
         .is_file()
         {
-            true => Box::new(
-                File::open(&file.options.path_or_content).unwrap(),
-            ),
+            true => match File::open(&file.options.path_or_content) {
+                Ok(fhandle) => Box::new(fhandle),
+                // nothing can be read from the file, so the parser
+                // will fail reading the magic number
+                Err(_) => Box::new(Cursor::new(vec![])),
+            },
             false => Box::new(Cursor::new(
-                file.options.byte_content.as_mut().unwrap().clone(),
+                file.options.byte_content.clone().unwrap_or_default(),
             )),
         };
 
-- 
2.43.0


From 85760d0ba85dc70768a837d116fe252fbc0457a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:25 +0000
Subject: [PATCH 12/25] fix: return an error for truncated strings of MO files

Failed reads were ignored, producing entries filled with NUL characters,
and the length found in the file was allocated without being checked.
---
 rust/src/moparser.rs | 62 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 47 insertions(+), 15 deletions(-)

diff --git a/rust/src/moparser.rs b/rust/src/moparser.rs
index 49cd9fc..512c284 100644
--- a/rust/src/moparser.rs
+++ b/rust/src/moparser.rs
@@ -1,6 +1,6 @@
 use std::borrow::Cow;
 use std::fs::File;
-use std::io::{Cursor, SeekFrom};
+use std::io::{Cursor, Read, SeekFrom};
 use std::path::Path;
 
 use crate::entry::MOEntry;
@@ -120,8 +120,7 @@ impl MOFileParser<'_> {
             number_of_strings,
             msgids_index,
             msgstrs_index,
-        );
-        Ok(())
+        )
     }
 
     fn parse_4_bytes(&mut self) -> Result<u32, std::io::Error> {
@@ -211,7 +210,15 @@ impl MOFileParser<'_> {
         table_offset: u32,
         context: &str,
     ) -> Result<Vec<(u32, u32)>, IOError> {
-        self.fhandle.seek(SeekFrom::Start(table_offset as u64)).ok();
+        if self
+            .fhandle
+            .seek(SeekFrom::Start(table_offset as u64))
+            .is_err()
+        {
+            return Err(IOError::CorruptedMOData {
+                context: format!("seeking {} table", context),
+            });
+        }
         let mut indexes: Vec<(u32, u32)> = vec![];
         for i in 0..number_of_strings {
             let msgid_length = match self.parse_4_bytes() {
@@ -267,25 +274,22 @@ impl MOFileParser<'_> {
         number_of_strings: u32,
         msgids_index: Vec<(u32, u32)>,
         msgstrs_index: Vec<(u32, u32)>,
-    ) {
+    ) -> Result<(), IOError> {
         for i in 0..number_of_strings {
             let (msgid_length, msgid_offset) =
                 msgids_index[i as usize];
             let (msgstr_length, msgstr_offset) =
                 msgstrs_index[i as usize];
 
-            self.fhandle
-                .seek(SeekFrom::Start(msgid_offset as u64))
-                .ok();
-            let mut msgid_buffer = vec![0; msgid_length as usize];
-            self.fhandle.read_exact(&mut msgid_buffer).ok();
+            let msgid_buffer =
+                self.read_string(msgid_length, msgid_offset, "msgid")?;
             let msgid = String::from_utf8_lossy(&msgid_buffer);
 
-            self.fhandle
-                .seek(SeekFrom::Start(msgstr_offset as u64))
-                .ok();
-            let mut msgstr_buffer = vec![0; msgstr_length as usize];
-            self.fhandle.read_exact(&mut msgstr_buffer).ok();
+            let msgstr_buffer = self.read_string(
+                msgstr_length,
+                msgstr_offset,
+                "msgstr",
+            )?;
             let msgstr = String::from_utf8_lossy(&msgstr_buffer);
 
             if i == 0 && msgid.is_empty() {
@@ -326,6 +330,34 @@ impl MOFileParser<'_> {
             );
             self.file.entries.push(entry);
         }
+        Ok(())
+    }
+
+    fn read_string(
+        &mut self,
+        length: u32,
+        offset: u32,
+        context: &str,
+    ) -> Result<Vec<u8>, IOError> {
+        let mut buffer = vec![];
+        let read = self
+            .fhandle
+            .seek(SeekFrom::Start(offset as u64))
+            .and_then(|_| {
+                self.fhandle
+                    .by_ref()
+                    .take(length as u64)
+                    .read_to_end(&mut buffer)
+            });
+        match read {
+            Ok(nbytes) if nbytes == length as usize => Ok(buffer),
+            _ => Err(IOError::CorruptedMOData {
+                context: format!(
+                    "reading {} at offset {}",
+                    context, offset
+                ),
+            }),
+        }
     }
 }
 
-- 
2.43.0


From 3729d210b33ce82d096b5e5f949eae2165f77f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:25 +0000
Subject: [PATCH 13/25] fix: do not swap msgid and msgctxt reading MO files

---
 rust/src/moparser.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/rust/src/moparser.rs b/rust/src/moparser.rs
index 512c284..76f38ad 100644
--- a/rust/src/moparser.rs
+++ b/rust/src/moparser.rs
@@ -49,12 +49,11 @@ fn maybe_extract_plurals_from_msgid_msgstr<'a>(
 fn maybe_extract_msgctxt_from_msgid(
     msgid: &str,
 ) -> (Cow<'_, str>, Option<String>) {
-    let msgid_tokens = msgid.split('\x04').collect::<Vec<&str>>();
-
-    if msgid_tokens.len() == 2 {
-        (msgid_tokens[0].into(), Some(msgid_tokens[1].to_string()))
-    } else {
-        (msgid.into(), None)
+    match msgid.split_once('\x04') {
+        Some((msgctxt, msgid)) => {
+            (msgid.into(), Some(msgctxt.to_string()))
+        }
+        None => (msgid.into(), None),
     }
 }
 
-- 
2.43.0


From 0cea4da38c224d71345318ddeb92dfcb78458f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:46 +0000
Subject: [PATCH 14/25] fix: write the comment marker in every line of wrapped
 comments

Wrapped comments lost the marker, so the result was not a valid PO file,
and a wrap width lower than 2 made it panic.
---
 rust/src/entry/poentry.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rust/src/entry/poentry.rs b/rust/src/entry/poentry.rs
index a8caeb2..5226b57 100644
--- a/rust/src/entry/poentry.rs
+++ b/rust/src/entry/poentry.rs
@@ -96,12 +96,16 @@ impl POEntry {
     ) {
         for line in comment.lines() {
             if UnicodeWidthStr::width(line) + 2 > wrapwidth {
-                target.push_str(&wrap(line, wrapwidth - 2).join("\n"))
+                for part in wrap(line, wrapwidth.saturating_sub(2)) {
+                    target.push_str(prefix);
+                    target.push_str(&part);
+                    target.push('\n');
+                }
             } else {
                 target.push_str(prefix);
                 target.push_str(line);
+                target.push('\n');
             }
-            target.push('\n');
         }
     }
 
-- 
2.43.0


From 5123cd4226f6815e44d44027394465bc15e24778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:46 +0000
Subject: [PATCH 15/25] fix: do not lose nor repeat occurrences when they are
 wrapped

---
 rust/src/entry/poentry.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rust/src/entry/poentry.rs b/rust/src/entry/poentry.rs
index 5226b57..9dc2005 100644
--- a/rust/src/entry/poentry.rs
+++ b/rust/src/entry/poentry.rs
@@ -155,11 +155,11 @@ impl POEntry {
                     let curr_line =
                         format!("#: {}", current_line_occs.join(" "));
                     files_repr.push(curr_line);
-                    current_width = occ_width + 2;
-                } else {
-                    current_line_occs.push(occ);
-                    current_width += occ_width + 1;
+                    current_line_occs.clear();
+                    current_width = 2;
                 }
+                current_line_occs.push(occ);
+                current_width += occ_width + 1;
             }
             if !current_line_occs.is_empty() {
                 let curr_line =
-- 
2.43.0


From 71e9571d31e946e9b06d6e4eb07ac201f475e8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:46 +0000
Subject: [PATCH 16/25] fix: write the previous msgid_plural with its own
 keyword

It was written as a previous msgid, followed by an empty line.
---
 rust/src/entry/poentry.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rust/src/entry/poentry.rs b/rust/src/entry/poentry.rs
index 9dc2005..99a5bf2 100644
--- a/rust/src/entry/poentry.rs
+++ b/rust/src/entry/poentry.rs
@@ -213,7 +213,7 @@ impl POEntry {
         {
             ret.push_str(
                 &POStringField::new(
-                    "msgid",
+                    "msgid_plural",
                     &prefix,
                     previous_msgid_plural,
                     "",
@@ -221,7 +221,6 @@ impl POEntry {
                 )
                 .to_string(),
             );
-            ret.push('\n');
         }
 
         ret.push_str(&mo_entry_to_string(
-- 
2.43.0


From e635833ca909a836c605c0774b7ee032606ef61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:03 +0000
Subject: [PATCH 17/25] fix: keep the trailing whitespace of msgstr

Another value was written, and a trailing newline present in both the
msgid and the msgstr disappeared only from the second.
---
 rust/src/entry/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/entry/mod.rs b/rust/src/entry/mod.rs
index 4ccbd11..9cda99c 100644
--- a/rust/src/entry/mod.rs
+++ b/rust/src/entry/mod.rs
@@ -76,7 +76,7 @@ fn default_mo_entry_msgstr_formatter(
     POStringField::new(
         "msgstr",
         delflag,
-        msgstr.trim_end(),
+        msgstr,
         "",
         wrapwidth,
     )
-- 
2.43.0


From 4bd8c8c154281196a7d3e63a69396f5fc0653ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:29 +0000
Subject: [PATCH 18/25] fix: use the wrap width of the file options writing PO
 files

The option was ignored, entries were always wrapped at 78 columns.
---
 rust/src/file/mofile.rs |  5 ++++-
 rust/src/file/pofile.rs | 12 ++++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/rust/src/file/mofile.rs b/rust/src/file/mofile.rs
index 4d8c240..aa63090 100644
--- a/rust/src/file/mofile.rs
+++ b/rust/src/file/mofile.rs
@@ -344,7 +344,10 @@ impl fmt::Display for MOFile {
 
         ret.push('\n');
         for entry in &self.entries {
-            ret.push_str(&entry.to_string());
+            ret.push_str(
+                &entry
+                    .to_string_with_wrapwidth(self.options.wrapwidth),
+            );
             ret.push('\n');
         }
         ret.remove(ret.len() - 1);
diff --git a/rust/src/file/pofile.rs b/rust/src/file/pofile.rs
index ec8d9d5..80e44f6 100644
--- a/rust/src/file/pofile.rs
+++ b/rust/src/file/pofile.rs
@@ -400,10 +400,18 @@ impl fmt::Display for POFile {
         let mut obsolete_entries_ret = String::new();
         for entry in &self.entries {
             if entry.obsolete {
-                obsolete_entries_ret.push_str(&entry.to_string());
+                obsolete_entries_ret.push_str(
+                    &entry.to_string_with_wrapwidth(
+                        self.options.wrapwidth,
+                    ),
+                );
                 obsolete_entries_ret.push('\n');
             } else {
-                entries_ret.push_str(&entry.to_string());
+                entries_ret.push_str(
+                    &entry.to_string_with_wrapwidth(
+                        self.options.wrapwidth,
+                    ),
+                );
                 entries_ret.push('\n');
             }
         }
-- 
2.43.0


From d61fa79b532fdf91979f5b69b861f8052668c483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:29 +0000
Subject: [PATCH 19/25] fix: do not break lines inside escape sequences

A line break is allowed between two backslashes, so an escaped backslash
could be divided in two lines that are not valid PO strings.
---
 rust/src/twrapper.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/rust/src/twrapper.rs b/rust/src/twrapper.rs
index de8913a..9dd2148 100644
--- a/rust/src/twrapper.rs
+++ b/rust/src/twrapper.rs
@@ -49,13 +49,24 @@ fn get_linebreaks(
     ret
 }
 
+/// Returns whether a byte index is between a backslash that starts
+/// an escape sequence and the escaped character
+fn is_inside_escape(text: &str, index: usize) -> bool {
+    let before = &text[..index];
+    let backslashes =
+        before.len() - before.trim_end_matches('\\').len();
+    index < text.len() && backslashes % 2 == 1
+}
+
 /// Wrap a text in lines using Unicode Line Breaking algorithm
 ///
 /// - `text` - Text to wrap in lines
 /// - `wrapwidth` - Maximum width of a line
 pub(crate) fn wrap(text: &str, wrapwidth: usize) -> Vec<String> {
     let linebreaks = get_linebreaks(
-        &unicode_linebreaks(text).collect(),
+        &unicode_linebreaks(text)
+            .filter(|(lb, _)| !is_inside_escape(text, *lb))
+            .collect(),
         text,
         wrapwidth,
     );
-- 
2.43.0


From cf2b642c2ea5460fe445fc29426d6ec3f7b6c55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:29 +0000
Subject: [PATCH 20/25] fix: do not ignore errors writing files

A partially written file was reported as saved. It now fails in the same
way as when the file can not be created.
---
 rust/src/file/mod.rs    | 2 +-
 rust/src/file/mofile.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/file/mod.rs b/rust/src/file/mod.rs
index 8b672f8..6a8d11f 100644
--- a/rust/src/file/mod.rs
+++ b/rust/src/file/mod.rs
@@ -32,7 +32,7 @@ pub trait SaveAsPOFile {
         Self: fmt::Display,
     {
         let mut file = File::create(path).unwrap();
-        file.write_all(self.to_string().as_bytes()).ok();
+        file.write_all(self.to_string().as_bytes()).unwrap();
     }
 }
 
diff --git a/rust/src/file/mofile.rs b/rust/src/file/mofile.rs
index aa63090..3cc52b5 100644
--- a/rust/src/file/mofile.rs
+++ b/rust/src/file/mofile.rs
@@ -362,7 +362,7 @@ impl Save for MOFile {
     /// Save the MOFile to a file at the given path
     fn save(&self, path: &str) {
         let mut file = File::create(path).unwrap();
-        file.write_all(&self.as_bytes()).ok();
+        file.write_all(&self.as_bytes()).unwrap();
     }
 }
 
-- 
2.43.0


From a3359c7dba9ab39175c12aea8634f9244b9074e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:29 +0000
Subject: [PATCH 21/25] fix: write metadata always in the same order

Keys that only differ in whitespace are equal in natural order, so their
order depended on the iteration order of the hash map.
---
 rust/src/file/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/src/file/mod.rs b/rust/src/file/mod.rs
index 6a8d11f..d0281ee 100644
--- a/rust/src/file/mod.rs
+++ b/rust/src/file/mod.rs
@@ -189,7 +189,9 @@ fn metadata_hashmap_to_ordered(
     }
 
     let mut metadata_keys = metadata.keys().collect::<Vec<&String>>();
-    metadata_keys.sort_by(|&a, &b| compare_natural_order(a, b));
+    metadata_keys.sort_by(|&a, &b| {
+        compare_natural_order(a, b).then_with(|| a.cmp(b))
+    });
 
     for key in metadata_keys {
         if !METADATA_KEYS_ORDER.contains(&key.as_str()) {
-- 
2.43.0


From 35d789131c2feabf1c363530aa7f8afadb557aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:29 +0000
Subject: [PATCH 22/25] fix: find MO entries without context by an empty
 context

The rest of find and remove methods of PO and MO files take a missing
context as an empty one.
---
 rust/src/file/mofile.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/src/file/mofile.rs b/rust/src/file/mofile.rs
index 3cc52b5..ae0d90e 100644
--- a/rust/src/file/mofile.rs
+++ b/rust/src/file/mofile.rs
@@ -166,7 +166,9 @@ impl MOFile {
         msgctxt: &str,
     ) -> Option<&MOEntry> {
         self.entries.iter().find(|e| {
-            e.msgid == msgid && e.msgctxt == Some(msgctxt.to_string())
+            e.msgid == msgid
+                && e.msgctxt.as_ref().unwrap_or(&"".to_string())
+                    == msgctxt
         })
     }
 
-- 
2.43.0


From 3cfb1e7eda2c6f6b743c5b4f3ff79aba21c7a687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:29 +0000
Subject: [PATCH 23/25] fix: mark the metadata as fuzzy only if it has the
 fuzzy flag

---
 rust/src/poparser.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index b661183..a34121c 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -255,8 +255,7 @@ impl POFileParser {
             .cloned();
         if let Some(metadata_entry) = metadata_entry {
             // Remove header from entries and store it in metadata hashmap
-            self.file.metadata_is_fuzzy =
-                !metadata_entry.flags.is_empty();
+            self.file.metadata_is_fuzzy = metadata_entry.fuzzy();
             self.file.remove(&metadata_entry);
 
             for metadata_line in
-- 
2.43.0


From 2fe00203185c499f6f452af0fcdb2932a73725c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:14 +0000
Subject: [PATCH 24/25] fix: do not drop entries without context merging PO
 files

An entry without context was not added if the file had another entry
with the same msgid and a context.
---
 rust/src/file/pofile.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/rust/src/file/pofile.rs b/rust/src/file/pofile.rs
index 80e44f6..d90e548 100644
--- a/rust/src/file/pofile.rs
+++ b/rust/src/file/pofile.rs
@@ -456,13 +456,10 @@ impl Merge for POFile {
     /// with a PO file.
     fn merge(&mut self, other: POFile) {
         for other_entry in other.entries.as_slice() {
-            let entry: Option<POEntry> = match other_entry.msgctxt {
-                Some(ref msgctxt) => self.find_by_msgid_msgctxt(
-                    &other_entry.msgid,
-                    msgctxt,
-                ),
-                None => self.find_by_msgid(&other_entry.msgid),
-            };
+            let entry: Option<POEntry> = self.find_by_msgid_msgctxt(
+                &other_entry.msgid,
+                other_entry.msgctxt.as_deref().unwrap_or(""),
+            );
 
             if let Some(e) = entry {
                 let mut entry = e;
-- 
2.43.0


From c6b31945948a56c260bd90cc33c48441ff4f7d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:48:41 +0000
Subject: [PATCH 25/25] fix: keep the last entry when both its msgid and msgstr
 are empty

---
 rust/src/poparser.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index a34121c..d5d84f3 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -238,11 +238,7 @@ impl POFileParser {
 
         if self.current_entry.msgid.is_empty() {
             // Adding header entry
-            if let Some(msgstr) = &self.current_entry.msgstr {
-                if !msgstr.is_empty() {
-                    self.add_current_entry()?;
-                }
-            }
+            self.maybe_add_current_entry()?;
         } else {
             self.add_current_entry()?;
         }
-- 
2.43.0

