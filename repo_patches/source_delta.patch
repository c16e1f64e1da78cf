From 63a9c31c03091b548971661b01235c68b8a3a123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:01 +0000
Subject: [PATCH 01/34] fix: read OTP period and keep '=' and '?' inside OTP
 parameters

---
 src/database.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/database.rs b/src/database.rs
index 9bc2c4b..b34129d 100644
--- a/src/database.rs
+++ b/src/database.rs
@@ -886,13 +886,13 @@ impl<'a> Otp<'a> {
     }
 
     fn find_url_param(&self, key: &str) -> Option<&str> {
-        let mut parts = self.url.split('?');
+        let mut parts = self.url.splitn(2, '?');
         let _path = parts.next()?;
         let params = parts.next()?;
         let params = params.split('&');
 
         for param in params {
-            let mut param_parts = param.split('=');
+            let mut param_parts = param.splitn(2, '=');
             let pkey = param_parts.next()?;
             if pkey == key {
                 return param_parts.next();
@@ -908,7 +908,7 @@ impl<'a> Otp<'a> {
 
     /// Return the period for which passwords are valid
     pub fn period(&self) -> Option<u32> {
-        self.find_url_param("secret").and_then(|p| p.parse().ok())
+        self.find_url_param("period").and_then(|p| p.parse().ok())
     }
 
     /// Return the number of digits in the resulting code
-- 
2.43.0


From a9bdacf47491436025a1cfdfd52c990c8ff43bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:01 +0000
Subject: [PATCH 02/34] fix: reject times that are out of range or not 8 bytes
 long

---
 src/xml/decoders.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/xml/decoders.rs b/src/xml/decoders.rs
index 376a303..d53da1c 100644
--- a/src/xml/decoders.rs
+++ b/src/xml/decoders.rs
@@ -19,10 +19,8 @@ pub fn decode_uuid(b64uuid: &str) -> Option<Uuid> {
 
 pub(crate) fn decode_datetime_b64(b64date: &str) -> Option<NaiveDateTime> {
     let decoded = BASE64_STANDARD.decode(b64date).ok()?;
-    let mut bytes = [0u8; 8];
-    let copy_size = usize::min(bytes.len(), decoded.len());
-    bytes[..copy_size].copy_from_slice(&decoded[..copy_size]);
-    let timestamp = Duration::seconds(i64::from_le_bytes(bytes));
+    let bytes: [u8; 8] = decoded.try_into().ok()?;
+    let timestamp = Duration::try_seconds(i64::from_le_bytes(bytes))?;
 
     keepass_epoch().checked_add_signed(timestamp)
 }
-- 
2.43.0


From 4276abe9167d5afd39c6f35907b6f7fe79bf18ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:01 +0000
Subject: [PATCH 03/34] fix: keep fields protected when they are emptied or set
 by name

---
 src/database.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/database.rs b/src/database.rs
index b34129d..33ae260 100644
--- a/src/database.rs
+++ b/src/database.rs
@@ -178,7 +178,7 @@ impl Field {
     /// Note: This is instructional for official clients, this library does not
     /// support memory protection
     pub fn protected(&self) -> bool {
-        matches!(self.value, Value::Protected(_))
+        matches!(self.value, Value::Protected(_) | Value::ProtectEmpty)
     }
 
     /// Set whether memory protection and extra encryption should be applied
@@ -364,7 +364,7 @@ impl Entry {
     pub fn set_title<S: ToString>(&mut self, title: S) {
         let title = title.to_string();
         match self.find_mut("Title") {
-            Some(f) => f.value = Value::Standard(title),
+            Some(f) => f.set_value(&title),
             None => self.fields.push(Field::new("Title", &title)),
         }
     }
@@ -378,7 +378,7 @@ impl Entry {
     pub fn set_username<S: ToString>(&mut self, username: S) {
         let username = username.to_string();
         match self.find_mut("UserName") {
-            Some(f) => f.value = Value::Standard(username),
+            Some(f) => f.set_value(&username),
             None => self.fields.push(Field::new("UserName", &username)),
         }
     }
@@ -392,7 +392,7 @@ impl Entry {
     pub fn set_url<S: ToString>(&mut self, url: S) {
         let url = url.to_string();
         match self.find_mut("URL") {
-            Some(f) => f.value = Value::Standard(url),
+            Some(f) => f.set_value(&url),
             None => self.fields.push(Field::new("URL", &url)),
         }
     }
-- 
2.43.0


From 4c62f62670de8f5d8755b5054c294e6fe11f1cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:53 +0000
Subject: [PATCH 04/34] fix: keep whitespace of text values when reading XML

---
 src/xml/parse.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index b4f9f6c..e60be56 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -61,10 +61,17 @@ fn parse_string<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<Option
     Ok(content)
 }
 
+/// Reads a value for which surrounding whitespace has no meaning
+fn parse_trimmed<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<Option<String>> {
+    Ok(parse_string(xml_event_reader)?
+        .map(|content| content.trim().to_string())
+        .filter(|content| !content.is_empty()))
+}
+
 macro_rules! parse_numeric_type {
     ($name:ident, $ty:ty) => {
         fn $name<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<Option<$ty>> {
-            parse_string(xml_event_reader)?
+            parse_trimmed(xml_event_reader)?
                 .map(|num| num.parse())
                 .transpose()
                 .map_err(|_| Error::InvalidNumber)
@@ -75,19 +82,19 @@ macro_rules! parse_numeric_type {
 parse_numeric_type!(parse_u32, u32);
 
 fn parse_uuid<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<Uuid> {
-    parse_string(xml_event_reader)?
+    parse_trimmed(xml_event_reader)?
         .and_then(|uuid| decode_uuid(&uuid))
         .ok_or(Error::InvalidUuid)
 }
 
 fn parse_datetime<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<NaiveDateTime> {
-    parse_string(xml_event_reader)?
+    parse_trimmed(xml_event_reader)?
         .and_then(|dt| decode_datetime(&dt))
         .ok_or(Error::InvalidDatetime)
 }
 
 fn parse_bool<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<bool> {
-    Ok(parse_string(xml_event_reader)?
+    Ok(parse_trimmed(xml_event_reader)?
         .map(|b| b.to_lowercase() == "true")
         .unwrap_or_default())
 }
@@ -115,7 +122,7 @@ fn parse_field<R: Read, S: StreamCipher + ?Sized>(
                     if protected {
                         // Would be nice to avoid the clone but it gets moved into the map_err closure
                         let key_clone = field.key.clone();
-                        match BASE64_STANDARD.decode(&contents) {
+                        match BASE64_STANDARD.decode(contents.trim()) {
                             Ok(mut decoded) => {
                                 stream_cipher
                                     .try_apply_keystream(decoded.as_mut())
@@ -370,7 +377,7 @@ pub fn parse_xml<R: Read, S: StreamCipher + ?Sized>(
     stream_cipher: &mut S,
 ) -> Result<Database> {
     let xml_config = xml::ParserConfig::new()
-        .trim_whitespace(true)
+        .whitespace_to_characters(true)
         .cdata_to_characters(true);
     let mut xml_event_reader = EventReader::new_with_config(xml_data, xml_config);
     parse_file(&mut xml_event_reader, stream_cipher)
-- 
2.43.0


From 3cfa126aa597226f90df2a28841cda6e8df8d93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:53 +0000
Subject: [PATCH 05/34] fix: keep the protection of empty values when saving
 and loading

---
 src/xml/parse.rs     | 2 ++
 src/xml/serialize.rs | 6 +++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index e60be56..5515ba0 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -141,6 +141,8 @@ fn parse_field<R: Read, S: StreamCipher + ?Sized>(
                     } else {
                         Value::Standard(contents)
                     }
+                } else if protected {
+                    Value::ProtectEmpty
                 } else {
                     Value::Empty
                 }
diff --git a/src/xml/serialize.rs b/src/xml/serialize.rs
index f021aa7..e074884 100644
--- a/src/xml/serialize.rs
+++ b/src/xml/serialize.rs
@@ -58,10 +58,14 @@ fn write_field<W: Write, S: StreamCipher + ?Sized>(
             writer.write(XmlEvent::end_element())?;
         }
         Value::Standard(v) => write_string_tag(writer, "Value", v)?,
-        Value::Empty | Value::ProtectEmpty => {
+        Value::Empty => {
             writer.write(XmlEvent::start_element("Value"))?;
             writer.write(XmlEvent::end_element())?;
         }
+        Value::ProtectEmpty => {
+            writer.write(XmlEvent::start_element("Value").attr("Protected", "True"))?;
+            writer.write(XmlEvent::end_element())?;
+        }
     }
     writer.write(XmlEvent::end_element())?;
     Ok(())
-- 
2.43.0


From 0425c4b881a84a02e16243d83ead67637b76ed16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:57 +0000
Subject: [PATCH 06/34] fix: refuse to save text and field names that can not
 be read back

---
 src/xml/serialize.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/xml/serialize.rs b/src/xml/serialize.rs
index e074884..245de31 100644
--- a/src/xml/serialize.rs
+++ b/src/xml/serialize.rs
@@ -16,10 +16,20 @@ pub enum Error {
     /// Failure of stream cipher when encrypting a value
     #[error("Error encountered encrypting with a stream cipher: {0}")]
     Cipher(String),
+    /// Text contains a character that XML documents can not contain
+    #[error("Character {0:?} can not be stored in an unprotected text")]
+    InvalidCharacter(char),
+    /// A field has an empty name
+    #[error("A field has an empty name")]
+    KeyEmptyName,
 }
 
 type Result<T> = std::result::Result<T, Error>;
 
+fn is_xml_char(c: char) -> bool {
+    matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{FFFD}' | '\u{10000}'..)
+}
+
 fn write_bool_tag<W: Write>(writer: &mut XmlWriter<W>, name: &str, value: bool) -> Result<()> {
     writer.write(XmlEvent::start_element(name))?;
     writer.write(XmlEvent::characters(if value { "True" } else { "False" }))?;
@@ -32,6 +42,9 @@ fn write_string_tag<W: Write, S: AsRef<str>>(
     name: &str,
     value: S,
 ) -> Result<()> {
+    if let Some(c) = value.as_ref().chars().find(|c| !is_xml_char(*c)) {
+        return Err(Error::InvalidCharacter(c));
+    }
     writer.write(XmlEvent::start_element(name))?;
     writer.write(XmlEvent::characters(value.as_ref()))?;
     writer.write(XmlEvent::end_element())?;
@@ -44,6 +57,9 @@ fn write_field<W: Write, S: StreamCipher + ?Sized>(
     field: &Field,
     stream_cipher: &mut S,
 ) -> Result<()> {
+    if field.key.is_empty() {
+        return Err(Error::KeyEmptyName);
+    }
     writer.write(XmlEvent::start_element(wrapper))?;
     write_string_tag(writer, "Key", &field.key)?;
     match &field.value {
-- 
2.43.0


From 06c655f1ac8da58ea133d6f33c4fc4c4c2e9a2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:51:11 +0000
Subject: [PATCH 07/34] fix: skip unknown XML elements as a whole and advance
 the key stream over them

---
 src/xml/parse.rs | 106 ++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 91 insertions(+), 15 deletions(-)

diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index 5515ba0..58a063a 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -8,6 +8,7 @@ use cipher::StreamCipher;
 use std::io::Read;
 use thiserror::Error;
 use uuid::Uuid;
+use xml::attribute::OwnedAttribute;
 use xml::reader::{EventReader, XmlEvent};
 
 #[derive(Debug, Error)]
@@ -99,6 +100,45 @@ fn parse_bool<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<bool> {
         .unwrap_or_default())
 }
 
+fn is_protected(attributes: &[OwnedAttribute]) -> bool {
+    attributes
+        .iter()
+        .any(|attr| attr.name.local_name == "Protected" && attr.value.to_lowercase() == "true")
+}
+
+/// Skip an element this library does not interpret
+///
+/// Protected values inside still use up their part of the key stream.
+fn skip_element<R: Read, S: StreamCipher + ?Sized>(
+    xml_event_reader: &mut EventReader<R>,
+    attributes: &[OwnedAttribute],
+    stream_cipher: &mut S,
+) -> Result<()> {
+    let mut open = vec![is_protected(attributes)];
+    let mut content = String::new();
+    while !open.is_empty() {
+        match xml_event_reader.next()? {
+            XmlEvent::StartElement { attributes, .. } => {
+                open.push(is_protected(&attributes));
+                content.clear();
+            }
+            XmlEvent::Characters(chardata) => content.push_str(&chardata),
+            XmlEvent::EndElement { name } => {
+                if open.pop() == Some(true) {
+                    BASE64_STANDARD
+                        .decode(content.trim())
+                        .ok()
+                        .and_then(|mut data| stream_cipher.try_apply_keystream(&mut data).ok())
+                        .ok_or(Error::DecryptFailed(name.local_name))?;
+                }
+                content.clear();
+            }
+            _ => {}
+        }
+    }
+    Ok(())
+}
+
 fn parse_field<R: Read, S: StreamCipher + ?Sized>(
     xml_event_reader: &mut EventReader<R>,
     tag_name: &str,
@@ -115,9 +155,7 @@ fn parse_field<R: Read, S: StreamCipher + ?Sized>(
             XmlEvent::StartElement {
                 name, attributes, ..
             } if &name.local_name == "Value" => {
-                let protected = attributes.iter().any(|attr| {
-                    attr.name.local_name == "Protected" && attr.value.to_lowercase() == "true"
-                });
+                let protected = is_protected(&attributes);
                 field.value = if let Some(contents) = parse_string(xml_event_reader)? {
                     if protected {
                         // Would be nice to avoid the clone but it gets moved into the map_err closure
@@ -147,6 +185,9 @@ fn parse_field<R: Read, S: StreamCipher + ?Sized>(
                     Value::Empty
                 }
             }
+            XmlEvent::StartElement { attributes, .. } => {
+                skip_element(xml_event_reader, &attributes, stream_cipher)?;
+            }
             XmlEvent::EndElement { name, .. } if name.local_name == tag_name => break,
             _ => {}
         }
@@ -164,6 +205,9 @@ fn parse_history<R: Read, S: StreamCipher + ?Sized>(
             XmlEvent::StartElement { name, .. } if &name.local_name == "Entry" => {
                 history.push(parse_entry(xml_event_reader, stream_cipher)?);
             }
+            XmlEvent::StartElement { attributes, .. } => {
+                skip_element(xml_event_reader, &attributes, stream_cipher)?;
+            }
             XmlEvent::EndElement { name, .. } if &name.local_name == "History" => break,
             _ => {}
         }
@@ -171,11 +215,16 @@ fn parse_history<R: Read, S: StreamCipher + ?Sized>(
     Ok(history)
 }
 
-fn parse_times<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<Times> {
+fn parse_times<R: Read, S: StreamCipher + ?Sized>(
+    xml_event_reader: &mut EventReader<R>,
+    stream_cipher: &mut S,
+) -> Result<Times> {
     let mut times = Times::default();
     loop {
         match xml_event_reader.next()? {
-            XmlEvent::StartElement { name, .. } => {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => {
                 if &name.local_name == "LastModificationTime" {
                     times.last_modification_time = parse_datetime(xml_event_reader)?;
                 } else if &name.local_name == "LastAccessTime" {
@@ -190,6 +239,8 @@ fn parse_times<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<Times>
                     times.expires = parse_bool(xml_event_reader)?;
                 } else if &name.local_name == "UsageCount" {
                     times.usage_count = parse_u32(xml_event_reader)?.unwrap_or_default();
+                } else {
+                    skip_element(xml_event_reader, &attributes, stream_cipher)?;
                 }
             }
             XmlEvent::EndElement { name, .. } if &name.local_name == "Times" => break,
@@ -206,7 +257,9 @@ fn parse_entry<R: Read, S: StreamCipher + ?Sized>(
     let mut entry = Entry::default();
     loop {
         match xml_event_reader.next()? {
-            XmlEvent::StartElement { name, .. } => {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => {
                 if &name.local_name == "History" {
                     entry.history = parse_history(xml_event_reader, stream_cipher)?;
                 } else if &name.local_name == "String" {
@@ -214,7 +267,9 @@ fn parse_entry<R: Read, S: StreamCipher + ?Sized>(
                 } else if &name.local_name == "UUID" {
                     entry.set_uuid(parse_uuid(xml_event_reader)?);
                 } else if &name.local_name == "Times" {
-                    entry.times = parse_times(xml_event_reader)?;
+                    entry.times = parse_times(xml_event_reader, stream_cipher)?;
+                } else {
+                    skip_element(xml_event_reader, &attributes, stream_cipher)?;
                 }
             }
             XmlEvent::EndElement { name, .. } if &name.local_name == "Entry" => break,
@@ -231,7 +286,9 @@ fn parse_group<R: Read, S: StreamCipher + ?Sized>(
     let mut group = Group::default();
     loop {
         match xml_event_reader.next()? {
-            XmlEvent::StartElement { name, .. } => {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => {
                 if &name.local_name == "Group" {
                     group.add_group(parse_group(xml_event_reader, stream_cipher)?);
                 } else if &name.local_name == "Entry" {
@@ -241,7 +298,9 @@ fn parse_group<R: Read, S: StreamCipher + ?Sized>(
                 } else if &name.local_name == "Name" {
                     group.set_name(parse_string(xml_event_reader)?.unwrap_or_default());
                 } else if &name.local_name == "Times" {
-                    group.times = parse_times(xml_event_reader)?;
+                    group.times = parse_times(xml_event_reader, stream_cipher)?;
+                } else {
+                    skip_element(xml_event_reader, &attributes, stream_cipher)?;
                 }
             }
             XmlEvent::EndElement { name, .. } if &name.local_name == "Group" => break,
@@ -261,6 +320,9 @@ fn parse_root<R: Read, S: StreamCipher + ?Sized>(
             XmlEvent::StartElement { name, .. } if &name.local_name == "Group" => {
                 groups.push(parse_group(xml_event_reader, stream_cipher)?);
             }
+            XmlEvent::StartElement { attributes, .. } => {
+                skip_element(xml_event_reader, &attributes, stream_cipher)?;
+            }
             XmlEvent::EndElement { name, .. } if &name.local_name == "Root" => break,
             _ => {}
         }
@@ -278,6 +340,9 @@ fn parse_custom_data<R: Read, S: StreamCipher + ?Sized>(
             XmlEvent::StartElement { name, .. } if &name.local_name == "Item" => {
                 fields.push(parse_field(xml_event_reader, "Item", stream_cipher)?);
             }
+            XmlEvent::StartElement { attributes, .. } => {
+                skip_element(xml_event_reader, &attributes, stream_cipher)?;
+            }
             XmlEvent::EndElement { name, .. } if &name.local_name == "CustomData" => break,
             _ => {}
         }
@@ -285,13 +350,16 @@ fn parse_custom_data<R: Read, S: StreamCipher + ?Sized>(
     Ok(fields)
 }
 
-fn parse_memory_protection<R: Read>(
+fn parse_memory_protection<R: Read, S: StreamCipher + ?Sized>(
     xml_event_reader: &mut EventReader<R>,
+    stream_cipher: &mut S,
 ) -> Result<MemoryProtection> {
     let mut protection = MemoryProtection::default();
     loop {
         match xml_event_reader.next()? {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_ref() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_ref() {
                 "ProtectTitle" => {
                     protection.protect_title = parse_bool(xml_event_reader)?;
                 }
@@ -307,7 +375,7 @@ fn parse_memory_protection<R: Read>(
                 "ProtectNotes" => {
                     protection.protect_notes = parse_bool(xml_event_reader)?;
                 }
-                _ => {}
+                _ => skip_element(xml_event_reader, &attributes, stream_cipher)?,
             },
             XmlEvent::EndElement { name, .. } if &name.local_name == "MemoryProtection" => break,
             _ => {}
@@ -323,7 +391,9 @@ fn parse_meta<R: Read, S: StreamCipher + ?Sized>(
     let mut meta = Meta::default();
     loop {
         match xml_event_reader.next()? {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_ref() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_ref() {
                 "Generator" => {
                     meta.generator = parse_string(xml_event_reader)?.unwrap_or_default();
                 }
@@ -337,9 +407,10 @@ fn parse_meta<R: Read, S: StreamCipher + ?Sized>(
                     meta.custom_data = parse_custom_data(xml_event_reader, stream_cipher)?;
                 }
                 "MemoryProtection" => {
-                    meta.memory_protection = parse_memory_protection(xml_event_reader)?;
+                    meta.memory_protection =
+                        parse_memory_protection(xml_event_reader, stream_cipher)?;
                 }
-                _ => {}
+                _ => skip_element(xml_event_reader, &attributes, stream_cipher)?,
             },
             XmlEvent::EndElement { name, .. } if &name.local_name == "Meta" => break,
             _ => {}
@@ -361,6 +432,11 @@ fn parse_file<R: Read, S: StreamCipher + ?Sized>(
             XmlEvent::StartElement { name, .. } if &name.local_name == "Meta" => {
                 db.meta = parse_meta(xml_event_reader, stream_cipher)?;
             }
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } if &name.local_name != "KeePassFile" => {
+                skip_element(xml_event_reader, &attributes, stream_cipher)?;
+            }
             XmlEvent::EndElement { name, .. } if &name.local_name == "KeePassFile" => break,
             _ => {}
         }
-- 
2.43.0


From 1d103775a04f9f873d5303e0e94d1526d02de36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:51:12 +0000
Subject: [PATCH 08/34] fix: handle XML documents without a KeePassFile element
 or without a root group

---
 src/xml/parse.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index 58a063a..dc024ee 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -427,7 +427,10 @@ fn parse_file<R: Read, S: StreamCipher + ?Sized>(
     loop {
         match xml_event_reader.next()? {
             XmlEvent::StartElement { name, .. } if &name.local_name == "Root" => {
-                db.groups = parse_root(xml_event_reader, stream_cipher)?;
+                let groups = parse_root(xml_event_reader, stream_cipher)?;
+                if !groups.is_empty() {
+                    db.groups = groups;
+                }
             }
             XmlEvent::StartElement { name, .. } if &name.local_name == "Meta" => {
                 db.meta = parse_meta(xml_event_reader, stream_cipher)?;
@@ -438,6 +441,9 @@ fn parse_file<R: Read, S: StreamCipher + ?Sized>(
                 skip_element(xml_event_reader, &attributes, stream_cipher)?;
             }
             XmlEvent::EndElement { name, .. } if &name.local_name == "KeePassFile" => break,
+            XmlEvent::EndDocument => {
+                return Err(Error::Xml("No KeePassFile element in document".to_string()))
+            }
             _ => {}
         }
     }
-- 
2.43.0


From 6faca5ae2b19a12977af4e260a44824df967f155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:02 +0000
Subject: [PATCH 09/34] fix: cache only the bytes a short read returned

Readers that return less than asked for made the cached header contain
stale bytes, so the header checksum failed.
---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 9098635..54a2eff 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -49,7 +49,7 @@ where
 impl<'a, I: io::Read> io::Read for CachingReader<'a, I> {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         let size = self.inner.read(buf)?;
-        self.data.extend(buf.iter().cloned());
+        self.data.extend_from_slice(&buf[..size]);
         Ok(size)
     }
 }
-- 
2.43.0


From cbe33356c244f059146201856a031c9100686b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:28 +0000
Subject: [PATCH 10/34] fix: report missing or wrongly sized header fields
 instead of panicking

---
 src/binary/errors.rs |  3 +++
 src/binary/header.rs | 40 +++++++++++++++++++++++++---------------
 src/binary/kdbx.rs   |  5 ++++-
 3 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/binary/errors.rs b/src/binary/errors.rs
index fb9cef6..63a3d05 100644
--- a/src/binary/errors.rs
+++ b/src/binary/errors.rs
@@ -59,6 +59,9 @@ pub enum HeaderError {
     /// A supported field had an unexpected format
     #[error("Incompatible database - Malformed field of type {0:?}: {1}")]
     MalformedField(header::OuterHeaderId, String),
+    /// A supported field of the encrypted header had an unexpected format
+    #[error("Incompatible database - Malformed inner field of type {0:?}: {1}")]
+    MalformedInnerField(header::InnerHeaderId, String),
     /// A required field is missing in the unencrypted header
     #[error("Incompatible database - Missing required field of type {0:?}")]
     MissingRequiredField(header::OuterHeaderId),
diff --git a/src/binary/header.rs b/src/binary/header.rs
index 4de6ceb..cb04a92 100644
--- a/src/binary/header.rs
+++ b/src/binary/header.rs
@@ -266,34 +266,36 @@ impl KdbxHeaderBuilder {
         Ok(())
     }
 
-    fn get_kdf_params(&mut self) -> Option<header_fields::KdfParams> {
+    fn get_kdf_params(&mut self) -> Result<Option<header_fields::KdfParams>> {
         if self.kdf_params.is_some() {
-            self.kdf_params.take()
+            Ok(self.kdf_params.take())
         } else {
             let rounds = self
                 .other_headers
                 .iter()
                 .find(|h| h.ty == OuterHeaderId::LegacyTransformRounds)
-                .map(|h| {
-                    let mut buf = [0u8; 8];
-                    buf.clone_from_slice(&h.data[0..8]);
-                    u64::from_le_bytes(buf)
-                });
+                .map(|h| -> Result<u64> {
+                    let buf: [u8; 8] = h.data.as_slice().try_into().map_err(|_| {
+                        Error::MalformedField(h.ty, "Wrong size for transform rounds".into())
+                    })?;
+                    Ok(u64::from_le_bytes(buf))
+                })
+                .transpose()?;
             let seed = self
                 .other_headers
                 .iter()
                 .find(|h| h.ty == OuterHeaderId::LegacyTransformSeed)
                 .map(|h| h.data.clone());
 
-            match (rounds, seed) {
+            Ok(match (rounds, seed) {
                 (Some(r), Some(s)) => Some(header_fields::KdfParams::Aes { rounds: r, salt: s }),
                 _ => None,
-            }
+            })
         }
     }
 
     fn build(mut self) -> Result<KdbxHeader> {
-        let kdf_params = self.get_kdf_params();
+        let kdf_params = self.get_kdf_params()?;
         Ok(KdbxHeader {
             cipher: self
                 .cipher
@@ -445,9 +447,13 @@ impl KdbxInnerHeaderBuilder {
     fn add_header(&mut self, header: HeaderField<InnerHeaderId>) -> Result<()> {
         match header.ty {
             InnerHeaderId::InnerRandomStreamCipherId => {
-                let d = header.data;
-                self.inner_stream_cipher =
-                    Some(u32::from_le_bytes([d[0], d[1], d[2], d[3]]).into());
+                let id: [u8; 4] = header.data.as_slice().try_into().map_err(|_| {
+                    Error::MalformedInnerField(
+                        header.ty,
+                        "Wrong size for inner stream cipher ID".into(),
+                    )
+                })?;
+                self.inner_stream_cipher = Some(u32::from_le_bytes(id).into());
             }
             InnerHeaderId::InnerRandomStreamKey => self.inner_stream_key = Some(header.data),
             _ => self.other_headers.push(header),
@@ -501,8 +507,12 @@ impl KdbxInnerHeader {
             ))?
             .data
             .clone();
-        let mut cipher_id_buf = [0u8; 4];
-        cipher_id_buf.clone_from_slice(&cipher[0..4]);
+        let cipher_id_buf: [u8; 4] = cipher.as_slice().try_into().map_err(|_| {
+            Error::MalformedField(
+                OuterHeaderId::InnerRandomStreamId,
+                "Wrong size for inner stream cipher ID".into(),
+            )
+        })?;
         let cipher_id = u32::from_le_bytes(cipher_id_buf);
 
         Ok(KdbxInnerHeader {
diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index 6059ae6..c8edefc 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -337,13 +337,16 @@ impl Kdbx<Locked> {
         master_key: &crypto::MasterKey,
     ) -> Result<(header::KdbxInnerHeader, Vec<u8>), errors::UnlockError> {
         let cipher_key = master_key.cipher_key(&self.state.header.master_seed);
+        let stream_start_bytes = self.header().stream_start_bytes.as_ref().ok_or(
+            errors::HeaderError::MissingRequiredField(header::OuterHeaderId::StreamStartBytes),
+        )?;
         let mut input_stream = stream::kdbx3_read_stream(
             &*self.state.encrypted_data,
             cipher_key,
             self.state.header.cipher,
             &self.state.header.encryption_iv,
             self.state.header.compression_type,
-            self.header().stream_start_bytes.as_ref().unwrap(),
+            stream_start_bytes,
         )?;
         let inner_header = header::KdbxInnerHeader::from_legacy_fields(&self.state.header)?;
         let mut output_buffer = Vec::new();
-- 
2.43.0


From cf2620a26d5de12b55863ea79f53e3b1810acbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:29 +0000
Subject: [PATCH 11/34] fix: do not allocate memory for lengths the file does
 not back

Lengths of header fields, dictionary entries and blocks were trusted, so a
few damaged bytes could request gigabytes or, when negative, overflow the
capacity of a vector.
---
 src/binary/header.rs       |  3 +--
 src/binary/variant_dict.rs |  8 +++-----
 src/stream/hmac.rs         |  4 ++--
 src/stream/kdbx3.rs        |  4 ++--
 src/utils.rs               | 12 +++++++++++-
 5 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/binary/header.rs b/src/binary/header.rs
index cb04a92..98815d9 100644
--- a/src/binary/header.rs
+++ b/src/binary/header.rs
@@ -184,8 +184,7 @@ where
             self.reader.read_exact(&mut len_buffer)?;
             u16::from_le_bytes(len_buffer) as u32
         };
-        let mut header_buffer = utils::buffer(len as usize);
-        self.reader.read_exact(&mut header_buffer)?;
+        let header_buffer = utils::read_bytes(self.reader, len as usize)?;
 
         Ok(HeaderField {
             ty,
diff --git a/src/binary/variant_dict.rs b/src/binary/variant_dict.rs
index 7e4e078..c4aa781 100644
--- a/src/binary/variant_dict.rs
+++ b/src/binary/variant_dict.rs
@@ -1,4 +1,4 @@
-use crate::utils::buffer;
+use crate::utils::read_bytes;
 use derive_more::TryInto;
 use std::collections::HashMap;
 use std::io::{self, Read};
@@ -151,14 +151,12 @@ fn parse_variant_dict_entry<T: Read>(ty: u8, input: &mut T) -> Result<(String, V
 
     input.read_exact(&mut length_buffer)?;
     let key_length = i32::from_le_bytes(length_buffer);
-    let mut key_buffer: Vec<u8> = buffer(key_length as usize);
-    input.read_exact(&mut key_buffer)?;
+    let key_buffer = read_bytes(input, key_length as usize)?;
     let key = String::from_utf8(key_buffer)?;
 
     input.read_exact(&mut length_buffer)?;
     let value_length = i32::from_le_bytes(length_buffer);
-    let mut value_buffer: Vec<u8> = buffer(value_length as usize);
-    input.read_exact(&mut value_buffer)?;
+    let value_buffer = read_bytes(input, value_length as usize)?;
 
     let value = Value::from_bytes(ty, value_buffer)?;
 
diff --git a/src/stream/hmac.rs b/src/stream/hmac.rs
index a7ea352..fa63b2c 100644
--- a/src/stream/hmac.rs
+++ b/src/stream/hmac.rs
@@ -1,6 +1,7 @@
 pub const HMAC_WRITE_BLOCK_SIZE: usize = 1024 * 1024;
 
 use crate::crypto::HmacKey;
+use crate::utils;
 use std::io::{self, Read, Write};
 
 pub(crate) struct HMacReader<R>
@@ -31,8 +32,7 @@ impl<R: io::Read> HMacReader<R> {
         let mut len_buffer = [0u8; 4];
         self.inner.read_exact(&mut len_buffer)?;
         let len = u32::from_le_bytes(len_buffer) as usize;
-        self.buffer.resize_with(len, Default::default);
-        self.inner.read_exact(&mut self.buffer)?;
+        self.buffer = utils::read_bytes(&mut self.inner, len)?;
         if !self
             .hmac_key
             .block_key(self.block_idx)
diff --git a/src/stream/kdbx3.rs b/src/stream/kdbx3.rs
index 3d256cc..8ba72dc 100644
--- a/src/stream/kdbx3.rs
+++ b/src/stream/kdbx3.rs
@@ -1,4 +1,5 @@
 use crate::crypto;
+use crate::utils;
 use std::io::{self, Read};
 
 pub struct HashedBlockReader<R>
@@ -30,8 +31,7 @@ where
         let mut len_buf = [0u8; 4];
         self.inner.read_exact(&mut len_buf)?;
         let len = u32::from_le_bytes(len_buf) as usize;
-        self.buffer.resize_with(len, Default::default);
-        self.inner.read_exact(&mut self.buffer)?;
+        self.buffer = utils::read_bytes(&mut self.inner, len)?;
         self.buf_idx = 0;
         if crypto::verify_sha256(&self.buffer, &hash_buf) {
             Ok(len)
diff --git a/src/utils.rs b/src/utils.rs
index 54a2eff..7bfa34f 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,7 +1,7 @@
 //! Utilities to help working with kdbx-rs
 
 use std::fmt::Write;
-use std::io;
+use std::io::{self, Read};
 use uuid::Uuid;
 
 use crate::binary::KdfAlgorithm;
@@ -38,6 +38,16 @@ pub(crate) fn buffer(len: usize) -> Vec<u8> {
     v
 }
 
+/// Read exactly `len` bytes, without trusting `len` when allocating memory
+pub(crate) fn read_bytes<R: io::Read>(input: &mut R, len: usize) -> io::Result<Vec<u8>> {
+    let mut data = Vec::new();
+    input.by_ref().take(len as u64).read_to_end(&mut data)?;
+    if data.len() < len {
+        return Err(io::ErrorKind::UnexpectedEof.into());
+    }
+    Ok(data)
+}
+
 pub(crate) struct CachingReader<'a, I>
 where
     I: io::Read,
-- 
2.43.0


From 328614ebb8c5272dd215aed4b9feb9d4d557506a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:30 +0000
Subject: [PATCH 12/34] fix: report a ChaCha20 initialisation vector of the
 wrong size

---
 src/stream/pipeline.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/stream/pipeline.rs b/src/stream/pipeline.rs
index 0d5981f..116ce32 100644
--- a/src/stream/pipeline.rs
+++ b/src/stream/pipeline.rs
@@ -17,6 +17,15 @@ use super::{
     HmacWriter, StreamCipherWriterExt,
 };
 
+fn chacha20_cipher(key: &crypto::CipherKey, iv: &[u8]) -> io::Result<ChaCha20> {
+    ChaCha20::new_from_slices(&key.0, iv).map_err(|_| {
+        io::Error::new(
+            io::ErrorKind::InvalidInput,
+            "Invalid cipher params - Could not create ChaCha20 cipher".to_string(),
+        )
+    })
+}
+
 fn block_cipher_read_stream<C, R>(
     inner: R,
     key: crypto::CipherKey,
@@ -51,7 +60,7 @@ pub(crate) fn decryption_stream<'a, R: io::Read + 'a>(
             inner, cipher_key, iv,
         )?),
         binary::Cipher::ChaCha20 => {
-            let cipher = ChaCha20::new_from_slices(&cipher_key.0, iv).unwrap();
+            let cipher = chacha20_cipher(&cipher_key, iv)?;
             Box::new(super::StreamCipherReader::new(inner, cipher))
         }
         _ => {
@@ -243,7 +252,7 @@ pub(crate) fn kdbx4_write_stream<'a, W: 'a + io::Write>(
             block_cipher_write_stream::<Twofish, _>(verified, cipher_key, iv)?
         }
         binary::Cipher::ChaCha20 => {
-            let cipher = ChaCha20::new_from_slices(&cipher_key.0, iv).unwrap();
+            let cipher = chacha20_cipher(&cipher_key, iv)?;
             EncryptWrite::Stream(Box::new(super::StreamCipherWriter::new(verified, cipher)))
         }
         _ => {
-- 
2.43.0


From 7a910ffbc79b9f05ef4e31326f9a0015b96c7dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:31 +0000
Subject: [PATCH 13/34] fix: report an AES key derivation seed of the wrong
 size

---
 src/crypto.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crypto.rs b/src/crypto.rs
index 0870566..7f50c53 100644
--- a/src/crypto.rs
+++ b/src/crypto.rs
@@ -90,7 +90,8 @@ impl ComposedKey {
             }
             binary::KdfParams::Aes { rounds, salt } => {
                 use cipher::KeyInit;
-                let mut cipher = Aes256::new_from_slice(salt).unwrap();
+                let mut cipher = Aes256::new_from_slice(salt)
+                    .map_err(|e| KeyGenerationError::KeyGeneration(e.to_string()))?;
                 let chunked: Vec<GenericArray<u8, _>> = self
                     .0
                     .chunks_exact(16)
-- 
2.43.0


From c5bdac95ad09066c834307a035ed83f3b0e20ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:32 +0000
Subject: [PATCH 14/34] fix: refuse unknown key derivation functions

An empty master key was used for them, which does not depend on the
credentials at all.
---
 src/crypto.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/crypto.rs b/src/crypto.rs
index 7f50c53..f81460e 100644
--- a/src/crypto.rs
+++ b/src/crypto.rs
@@ -108,7 +108,9 @@ impl ComposedKey {
 
                 Ok(MasterKey(transformed))
             }
-            _ => Ok(MasterKey(Vec::new())),
+            _ => Err(KeyGenerationError::UnimplementedKdfOptions(
+                kdf_options.clone(),
+            )),
         }
     }
 }
-- 
2.43.0


From 4d2200dbf88afde249d28818681cd043ad1c0b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:33 +0000
Subject: [PATCH 15/34] fix: refuse Argon2 parameters that do not fit instead
 of truncating them

---
 src/crypto.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/crypto.rs b/src/crypto.rs
index f81460e..f7fd3c3 100644
--- a/src/crypto.rs
+++ b/src/crypto.rs
@@ -79,8 +79,10 @@ impl ComposedKey {
                     version: argon2::Version::from_u32(*version)
                         .map_err(|e| KeyGenerationError::KeyGeneration(e.to_string()))?,
                     lanes: *lanes,
-                    mem_cost: (memory_bytes / 1024) as u32,
-                    time_cost: *iterations as u32,
+                    mem_cost: u32::try_from(memory_bytes / 1024)
+                        .map_err(|e| KeyGenerationError::KeyGeneration(e.to_string()))?,
+                    time_cost: u32::try_from(*iterations)
+                        .map_err(|e| KeyGenerationError::KeyGeneration(e.to_string()))?,
                     ..Default::default()
                 };
                 let hash = argon2::hash_raw(&self.0, salt, &config)
-- 
2.43.0


From bc4d4cc091cf7debb8e9dc7fbabe1e03ff2007ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:33 +0000
Subject: [PATCH 16/34] fix: refuse the Argon2i variant, which KDBX archives
 can not name

Saving with it panicked.
---
 src/crypto.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypto.rs b/src/crypto.rs
index f7fd3c3..21197c4 100644
--- a/src/crypto.rs
+++ b/src/crypto.rs
@@ -73,7 +73,7 @@ impl ComposedKey {
                 iterations,
                 lanes,
                 salt,
-            } => {
+            } if *variant != argon2::Variant::Argon2i => {
                 let config = argon2::Config {
                     variant: *variant,
                     version: argon2::Version::from_u32(*version)
-- 
2.43.0


From 5718550dfd3984dcc6a1ac164bc45e88dc740639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:52 +0000
Subject: [PATCH 17/34] fix: do not return padding bytes at the end of block
 cipher streams

After the last, shorter block was consumed, the next read returned its
padding as data.
---
 src/stream/block_cipher.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/stream/block_cipher.rs b/src/stream/block_cipher.rs
index 3fc9e8a..6d761c0 100644
--- a/src/stream/block_cipher.rs
+++ b/src/stream/block_cipher.rs
@@ -19,6 +19,7 @@ where
     inner: R,
     buffer: GenericArray<u8, C::BlockSize>,
     buf_idx: usize,
+    buf_len: usize,
     cipher: cbc::Decryptor<C>,
     first_read: bool,
     peek_byte: Option<u8>,
@@ -39,6 +40,7 @@ where
             cipher: cbc::Decryptor::new_from_slices(&key.0, iv)?,
             buffer: GenericArray::default(),
             buf_idx: 0,
+            buf_len: 0,
             first_read: true,
             peek_byte: None,
         })
@@ -52,6 +54,7 @@ where
 {
     fn buffer_next_block(&mut self) -> io::Result<usize> {
         self.buf_idx = 0;
+        self.buf_len = 0;
         let mut buffered_bytes = 0;
 
         if let Some(byte) = self.peek_byte {
@@ -107,10 +110,11 @@ where
     C: BlockCipher + BlockDecryptMut,
 {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
-        let mut remaining_in_buffer = self.buffer.len() - self.buf_idx;
+        let mut remaining_in_buffer = self.buf_len - self.buf_idx;
 
-        if remaining_in_buffer == 0 || self.first_read {
-            remaining_in_buffer = self.buffer_next_block()?;
+        if remaining_in_buffer == 0 {
+            self.buf_len = self.buffer_next_block()?;
+            remaining_in_buffer = self.buf_len;
         }
         let copy_len = usize::min(remaining_in_buffer, buf.len());
         for (i, byte) in buf.iter_mut().enumerate().take(copy_len) {
-- 
2.43.0


From 32d11959f05cc3a2449f55049c93388ed88875cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:52 +0000
Subject: [PATCH 18/34] fix: accept the empty final block of KDBX 3.1 archives

Its hash is all zero by definition, so reading uncompressed archives failed.
---
 src/stream/kdbx3.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stream/kdbx3.rs b/src/stream/kdbx3.rs
index 8ba72dc..bc654cb 100644
--- a/src/stream/kdbx3.rs
+++ b/src/stream/kdbx3.rs
@@ -33,7 +33,8 @@ where
         let len = u32::from_le_bytes(len_buf) as usize;
         self.buffer = utils::read_bytes(&mut self.inner, len)?;
         self.buf_idx = 0;
-        if crypto::verify_sha256(&self.buffer, &hash_buf) {
+        // The hash of the final, empty block is all zero
+        if (len == 0 && hash_buf == [0u8; 32]) || crypto::verify_sha256(&self.buffer, &hash_buf) {
             Ok(len)
         } else {
             Err(io::Error::new(
-- 
2.43.0


From 78c3cff1c79e76b654000ba574084aa5b4fb1227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:53 +0000
Subject: [PATCH 19/34] fix: report wrong credentials of KDBX 3.1 archives as
 such

`UnlockError::StartBytesInvalid` existed for this purpose but was never
returned.
---
 src/stream/pipeline.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/stream/pipeline.rs b/src/stream/pipeline.rs
index 116ce32..dd3bece 100644
--- a/src/stream/pipeline.rs
+++ b/src/stream/pipeline.rs
@@ -81,16 +81,13 @@ pub(crate) fn kdbx3_read_stream<'a, R: io::Read + 'a>(
     iv: &[u8],
     compression: binary::CompressionType,
     expected_start_bytes: &[u8],
-) -> io::Result<Box<dyn io::Read + 'a>> {
+) -> Result<Box<dyn io::Read + 'a>, binary::errors::UnlockError> {
     let buffered = io::BufReader::new(inner);
     let mut decrypted = decryption_stream(buffered, cipher_key, cipher, iv)?;
     let mut start_bytes = [0u8; 32];
     decrypted.read_exact(&mut start_bytes)?;
     if start_bytes != expected_start_bytes {
-        return Err(io::Error::new(
-            io::ErrorKind::InvalidData,
-            "Could not validate start bytes",
-        ));
+        return Err(binary::errors::UnlockError::StartBytesInvalid);
     }
     let verified = HashedBlockReader::new(decrypted);
     let decompressed: Box<dyn io::Read> = match compression {
@@ -100,7 +97,8 @@ pub(crate) fn kdbx3_read_stream<'a, R: io::Read + 'a>(
             return Err(io::Error::new(
                 io::ErrorKind::InvalidInput,
                 format!("Unsupported compression type {:?}", compression),
-            ))
+            )
+            .into())
         }
     };
 
-- 
2.43.0


From a05c4d826565cf7dea1a1c9d0fce9307014fed6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:43 +0000
Subject: [PATCH 20/34] fix: verify the header hash of KDBX 3.1 archives

Without this check changes to the unencrypted header, such as another inner
stream, went unnoticed and garbled protected values.
---
 src/binary/kdbx.rs | 11 +++++++++++
 src/xml/parse.rs   | 35 +++++++++++++++++++++++++++++++----
 2 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index c8edefc..90e2f5e 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -1,5 +1,6 @@
 use super::{errors, header};
 use crate::{crypto, database, stream};
+use base64::prelude::{Engine, BASE64_STANDARD};
 use std::io::{Read, Write};
 use std::ops::{Deref, DerefMut};
 
@@ -354,6 +355,12 @@ impl Kdbx<Locked> {
         Ok((inner_header, output_buffer))
     }
 
+    fn verify_header_hash(&self, b64hash: &str) -> bool {
+        BASE64_STANDARD.decode(b64hash).map_or(false, |hash| {
+            crypto::verify_sha256(&self.state.header_data, &hash)
+        })
+    }
+
     #[allow(clippy::result_large_err)]
     fn unlock_v3(self, key: &crypto::CompositeKey) -> Result<Kdbx<Unlocked>, FailedUnlock> {
         let composed_key = key.composed();
@@ -369,6 +376,10 @@ impl Kdbx<Locked> {
                     .inner_stream_cipher
                     .stream_cipher(inner_header.inner_stream_key.as_ref())?;
                 let parsed = crate::xml::parse_xml(data.as_slice(), stream_cipher.as_mut())?;
+                let header_hash = crate::xml::parse::parse_header_hash(data.as_slice())?;
+                if header_hash.map_or(false, |hash| !self.verify_header_hash(&hash)) {
+                    return Err(errors::HeaderError::ChecksumFailed.into());
+                }
                 Ok((inner_header, data, parsed))
             });
         match parsed {
diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index dc024ee..529f363 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -450,6 +450,36 @@ fn parse_file<R: Read, S: StreamCipher + ?Sized>(
     Ok(db)
 }
 
+fn event_reader<R: Read>(xml_data: R) -> EventReader<R> {
+    let xml_config = xml::ParserConfig::new()
+        .whitespace_to_characters(true)
+        .cdata_to_characters(true);
+    EventReader::new_with_config(xml_data, xml_config)
+}
+
+/// Read the hash of the unencrypted header that kdbx3 archives store
+///
+/// Returns the base64 encoded hash if there is one.
+pub(crate) fn parse_header_hash<R: Read>(xml_data: R) -> Result<Option<String>> {
+    let mut xml_event_reader = event_reader(xml_data);
+    let mut path: Vec<String> = Vec::new();
+    loop {
+        match xml_event_reader.next()? {
+            XmlEvent::StartElement { name, .. } => {
+                if path == ["KeePassFile", "Meta"] && name.local_name == "HeaderHash" {
+                    return parse_trimmed(&mut xml_event_reader);
+                }
+                path.push(name.local_name);
+            }
+            XmlEvent::EndElement { .. } => {
+                path.pop();
+            }
+            XmlEvent::EndDocument => return Ok(None),
+            _ => {}
+        }
+    }
+}
+
 /// Parse decrypted XML into a database
 ///
 /// If you need to obtain a stream cipher, consider using
@@ -460,9 +490,6 @@ pub fn parse_xml<R: Read, S: StreamCipher + ?Sized>(
     xml_data: R,
     stream_cipher: &mut S,
 ) -> Result<Database> {
-    let xml_config = xml::ParserConfig::new()
-        .whitespace_to_characters(true)
-        .cdata_to_characters(true);
-    let mut xml_event_reader = EventReader::new_with_config(xml_data, xml_config);
+    let mut xml_event_reader = event_reader(xml_data);
     parse_file(&mut xml_event_reader, stream_cipher)
 }
-- 
2.43.0


From f15423716c6158bff3bd264cfe7bdd7f529cd5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:44 +0000
Subject: [PATCH 21/34] fix: save databases larger than one block

A write that found the block buffer exactly full reported that nothing was
written, which callers treat as an error. Flushing without pending data
wrote the block that marks the end of the data.
---
 src/stream/hmac.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/stream/hmac.rs b/src/stream/hmac.rs
index fa63b2c..f610103 100644
--- a/src/stream/hmac.rs
+++ b/src/stream/hmac.rs
@@ -121,19 +121,21 @@ where
 
 impl<'a, W: 'a + io::Write> io::Write for HmacWriter<'a, W> {
     fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
-        let space_in_buffer = HMAC_WRITE_BLOCK_SIZE - self.buffer.len();
-        let write_size = usize::min(buf.len(), space_in_buffer);
-        self.buffer.extend_from_slice(&buf[0..write_size]);
-        if write_size < buf.len() {
+        if self.buffer.len() == HMAC_WRITE_BLOCK_SIZE {
             // Internal buffer full, write it out
             self.write_block()?;
-            self.buffer.clear();
         }
+        let space_in_buffer = HMAC_WRITE_BLOCK_SIZE - self.buffer.len();
+        let write_size = usize::min(buf.len(), space_in_buffer);
+        self.buffer.extend_from_slice(&buf[0..write_size]);
         Ok(write_size)
     }
 
     fn flush(&mut self) -> io::Result<()> {
-        self.write_block()?;
-        Ok(())
+        // An empty block would mark the end of the data
+        if !self.buffer.is_empty() {
+            self.write_block()?;
+        }
+        self.inner.flush()
     }
 }
-- 
2.43.0


From 4d12aec61ff076848503c70a6d4b730d9c39b69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:29 +0000
Subject: [PATCH 22/34] fix: write no partial XML for a database that can not
 be serialized

The document is also flushed now, so that errors of buffering destinations
are reported.
---
 src/binary/kdbx.rs   |  7 ++-----
 src/xml/serialize.rs | 20 +++++++++++++++++---
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index 90e2f5e..c70e78c 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -113,11 +113,8 @@ impl Unlocked {
             .inner_header
             .inner_stream_cipher
             .stream_cipher(&self.inner_header.inner_stream_key)?;
-        crate::xml::write_xml(
-            &mut encrypted_stream,
-            &self.database,
-            stream_cipher.as_mut(),
-        )?;
+        let xml_data = crate::xml::serialize::xml_document(&self.database, stream_cipher.as_mut())?;
+        encrypted_stream.write_all(&xml_data)?;
 
         encrypted_stream.finish()?;
         Ok(encrypted_buf)
diff --git a/src/xml/serialize.rs b/src/xml/serialize.rs
index 245de31..1da43a7 100644
--- a/src/xml/serialize.rs
+++ b/src/xml/serialize.rs
@@ -193,14 +193,28 @@ fn write_group<W: Write, S: StreamCipher + ?Sized>(
 /// if the XML contains encrypted data, or [`utils::NullStreamCipher`][crate::utils::NullStreamCipher]
 /// if it does not (such as an export from the official client).
 pub fn write_xml<W: Write, S: StreamCipher + ?Sized>(
-    output: W,
+    mut output: W,
     database: &Database,
     stream_cipher: &mut S,
 ) -> Result<()> {
+    let document = xml_document(database, stream_cipher)?;
+    output
+        .write_all(&document)
+        .and_then(|_| output.flush())
+        .map_err(xml::writer::Error::from)?;
+    Ok(())
+}
+
+/// Generate the decrypted XML for a database
+pub(crate) fn xml_document<S: StreamCipher + ?Sized>(
+    database: &Database,
+    stream_cipher: &mut S,
+) -> Result<Vec<u8>> {
     let config = xml::EmitterConfig::default()
         .perform_indent(true)
         .indent_string("\t");
-    let mut writer = xml::EventWriter::new_with_config(output, config);
+    let mut document = Vec::new();
+    let mut writer = xml::EventWriter::new_with_config(&mut document, config);
     writer.write(XmlEvent::start_element("KeePassFile"))?;
     write_meta(&mut writer, &database.meta, stream_cipher)?;
     writer.write(XmlEvent::start_element("Root"))?;
@@ -209,5 +223,5 @@ pub fn write_xml<W: Write, S: StreamCipher + ?Sized>(
     }
     writer.write(XmlEvent::end_element())?;
     writer.write(XmlEvent::end_element())?;
-    Ok(())
+    Ok(document)
 }
-- 
2.43.0


From b52f41b79fc6a5a6a4adb73367c5eaf36f8af560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:30 +0000
Subject: [PATCH 23/34] fix: write nothing when the database can not be
 encrypted and flush the output

The header was written before the content was encrypted, so a failure left a
truncated archive. Errors of a buffering destination went unnoticed.
---
 src/binary/kdbx.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index c70e78c..6c4c703 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -150,16 +150,17 @@ impl KdbxState for Unlocked {
         header_writer.write_all(&self.minor_version.to_le_bytes())?;
         header_writer.write_all(&self.major_version.to_le_bytes())?;
         self.header.write(&mut header_buf)?;
-        output.write_all(&header_buf)?;
-        output.write_all(&crypto::sha256(&header_buf))?;
         let hmac_key = master_key.hmac_key(&self.header.master_seed);
         let hmac = hmac_key
             .block_key(u64::MAX)
             .calculate_header_hmac(&header_buf)
             .map_err(|_| errors::WriteError::MissingKeys)?;
-        output.write_all(&hmac.into_bytes())?;
         let encrypted_xml = self.encrypt_inner(master_key)?;
+        output.write_all(&header_buf)?;
+        output.write_all(&crypto::sha256(&header_buf))?;
+        output.write_all(&hmac.into_bytes())?;
         output.write_all(&encrypted_xml)?;
+        output.flush()?;
         Ok(())
     }
 }
@@ -292,6 +293,7 @@ impl KdbxState for Locked {
             output.write_all(self.hmac.as_ref().unwrap())?;
         }
         output.write_all(&self.encrypted_data)?;
+        output.flush()?;
         Ok(())
     }
 }
-- 
2.43.0


From 218fb79a54536c5b101fc8ba67e40ca10d665997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:31 +0000
Subject: [PATCH 24/34] fix: refuse to save KDBX 3.1 archives

A KDBX 4 body was written behind a KDBX 3.1 header, which nothing can open.
---
 src/binary/errors.rs | 3 +++
 src/binary/kdbx.rs   | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/src/binary/errors.rs b/src/binary/errors.rs
index 63a3d05..a6e8d80 100644
--- a/src/binary/errors.rs
+++ b/src/binary/errors.rs
@@ -88,6 +88,9 @@ pub enum WriteError {
     /// The database could not be serialized to XML
     #[error("Error serializing database to XML - {0}")]
     XmlWrite(#[from] crate::xml::serialize::Error),
+    /// Writing databases of this KDBX version is not supported
+    #[error("Unsupported kdbx version to write {0}")]
+    UnsupportedMajorVersion(u16),
     /// The database could not be written to as `set_key()` has not been called.
     #[error("No key to write database with")]
     MissingKeys,
diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index 6c4c703..2960ae1 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -139,6 +139,11 @@ impl KdbxState for Unlocked {
     }
 
     fn write<W: Write>(&self, mut output: W) -> Result<(), errors::WriteError> {
+        if self.major_version != 4 {
+            return Err(errors::WriteError::UnsupportedMajorVersion(
+                self.major_version,
+            ));
+        }
         let master_key = self
             .master_key
             .as_ref()
-- 
2.43.0


From 1162e676968192e29b4abfa0ec085624848ab793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:32 +0000
Subject: [PATCH 25/34] fix: derive the key again when the key derivation
 settings changed

The saved header named the new settings while the key came from the old
ones, so the archive could not be opened any more. A failing `set_key()` now
also keeps the previous credentials.
---
 src/binary/errors.rs |  3 +++
 src/binary/kdbx.rs   | 33 ++++++++++++++++++++++-----------
 2 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/binary/errors.rs b/src/binary/errors.rs
index a6e8d80..8e62f71 100644
--- a/src/binary/errors.rs
+++ b/src/binary/errors.rs
@@ -94,6 +94,9 @@ pub enum WriteError {
     /// The database could not be written to as `set_key()` has not been called.
     #[error("No key to write database with")]
     MissingKeys,
+    /// There was some error generating the keys, likely incorrect or unsupported KDF options
+    #[error("Key generation failed - {0}")]
+    KeyGen(#[from] crypto::KeyGenerationError),
     /// The inner stream is invalid
     #[error("Cannot create inner stream to write protected values - {0}")]
     InnerStream(#[from] InnerStreamError),
diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index 2960ae1..b840c85 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -1,4 +1,4 @@
-use super::{errors, header};
+use super::{errors, header, header_fields};
 use crate::{crypto, database, stream};
 use base64::prelude::{Engine, BASE64_STANDARD};
 use std::io::{Read, Write};
@@ -87,10 +87,10 @@ pub struct Unlocked {
     pub(crate) major_version: u16,
     /// Minor version of the database file format
     pub(crate) minor_version: u16,
-    /// Master key used to derive other keys
+    /// Hashed credentials used to derive the master key
     pub(crate) composed_key: Option<crypto::ComposedKey>,
-    /// Master key used to derive other keys
-    pub(crate) master_key: Option<crypto::MasterKey>,
+    /// Master key used to derive other keys and the options it was derived with
+    pub(crate) master_key: Option<(header_fields::KdfParams, crypto::MasterKey)>,
     /// Unencrypted unparsed XML data
     pub(crate) xml_data: Option<Vec<u8>>,
     /// Actual password database data
@@ -144,10 +144,19 @@ impl KdbxState for Unlocked {
                 self.major_version,
             ));
         }
-        let master_key = self
-            .master_key
+        let composed_key = self
+            .composed_key
             .as_ref()
             .ok_or(errors::WriteError::MissingKeys)?;
+        let derived_key;
+        let master_key = match self.master_key {
+            Some((ref params, ref key)) if *params == self.header.kdf_params => key,
+            // The key derivation was reconfigured since the key was set
+            _ => {
+                derived_key = composed_key.master_key(&self.header.kdf_params)?;
+                &derived_key
+            }
+        };
         let mut header_buf = Vec::new();
         let header_writer = &mut header_buf as &mut dyn Write;
         header_writer.write_all(&super::KEEPASS_MAGIC_NUMBER.to_le_bytes())?;
@@ -186,9 +195,11 @@ impl Kdbx<Unlocked> {
         &mut self,
         key: crypto::CompositeKey,
     ) -> Result<(), crate::errors::KeyGenerationError> {
-        self.state.composed_key = Some(key.composed());
-        let composed_key = self.state.composed_key.as_ref().unwrap();
-        self.state.master_key = Some(composed_key.master_key(&self.header().kdf_params)?);
+        let composed_key = key.composed();
+        let kdf_params = self.header().kdf_params.clone();
+        let master_key = composed_key.master_key(&kdf_params)?;
+        self.state.composed_key = Some(composed_key);
+        self.state.master_key = Some((kdf_params, master_key));
 
         Ok(())
     }
@@ -390,11 +401,11 @@ impl Kdbx<Locked> {
             Ok((inner_header, data, db)) => Ok(Kdbx {
                 state: Unlocked {
                     inner_header,
+                    master_key: Some((self.state.header.kdf_params.clone(), master_key)),
                     header: self.state.header,
                     major_version: self.state.major_version,
                     minor_version: self.state.minor_version,
                     composed_key: Some(composed_key),
-                    master_key: Some(master_key),
                     database: db,
                     xml_data: Some(data),
                 },
@@ -430,11 +441,11 @@ impl Kdbx<Locked> {
                 Ok((inner_header, data, db)) => Ok(Kdbx {
                     state: Unlocked {
                         inner_header,
+                        master_key: Some((self.state.header.kdf_params.clone(), master_key)),
                         header: self.state.header,
                         major_version: self.state.major_version,
                         minor_version: self.state.minor_version,
                         composed_key: Some(composed_key),
-                        master_key: Some(master_key),
                         database: db,
                         xml_data: Some(data),
                     },
-- 
2.43.0


From 6ba83bb7905e53ebea67645dea9b4aa5185dbc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:34 +0000
Subject: [PATCH 26/34] fix: write locked archives exactly as they were read

The header was generated anew in a different order, so its authentication
code did not match and the written archive could not be unlocked. Changing
the header of a locked archive is now reported when writing it.
---
 src/binary/errors.rs |  3 +++
 src/binary/header.rs |  2 +-
 src/binary/kdbx.rs   | 17 ++++++++---------
 src/binary/read.rs   |  1 +
 4 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/binary/errors.rs b/src/binary/errors.rs
index 8e62f71..0784214 100644
--- a/src/binary/errors.rs
+++ b/src/binary/errors.rs
@@ -94,6 +94,9 @@ pub enum WriteError {
     /// The database could not be written to as `set_key()` has not been called.
     #[error("No key to write database with")]
     MissingKeys,
+    /// The header of a locked database was changed, which requires its key
+    #[error("Header of a locked database was changed - unlock it first")]
+    LockedHeaderChanged,
     /// There was some error generating the keys, likely incorrect or unsupported KDF options
     #[error("Key generation failed - {0}")]
     KeyGen(#[from] crypto::KeyGenerationError),
diff --git a/src/binary/header.rs b/src/binary/header.rs
index 98815d9..3eec642 100644
--- a/src/binary/header.rs
+++ b/src/binary/header.rs
@@ -316,7 +316,7 @@ impl KdbxHeaderBuilder {
     }
 }
 
-#[derive(Debug, PartialEq, Eq)]
+#[derive(Clone, Debug, PartialEq, Eq)]
 /// Unencrypted database configuration and custom data
 ///
 /// [`KdbxHeader::from_os_random()`] will provide a header with
diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index b840c85..9ef152f 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -266,6 +266,8 @@ impl DerefMut for Kdbx<Unlocked> {
 pub struct Locked {
     /// Header data of the kdbx archive, includes unencrypted metadata
     pub(crate) header: header::KdbxHeader,
+    /// Header as it was read, to detect changes
+    pub(crate) original_header: header::KdbxHeader,
     /// Raw bytes of header data, useful for checksums
     pub(crate) header_data: Vec<u8>,
     /// Major version of the database file format
@@ -296,16 +298,13 @@ impl KdbxState for Locked {
     }
 
     fn write<W: Write>(&self, mut output: W) -> Result<(), errors::WriteError> {
-        let mut header_buf = Vec::new();
-        let header_writer = &mut header_buf as &mut dyn Write;
-        header_writer.write_all(&super::KEEPASS_MAGIC_NUMBER.to_le_bytes())?;
-        header_writer.write_all(&super::KDBX_MAGIC_NUMBER.to_le_bytes())?;
-        header_writer.write_all(&self.minor_version.to_le_bytes())?;
-        header_writer.write_all(&self.major_version.to_le_bytes())?;
-        self.header.write(&mut header_buf)?;
-        output.write_all(&header_buf)?;
+        // The stored header is what the archive authenticates, so it can't be generated anew
+        if self.header != self.original_header {
+            return Err(errors::WriteError::LockedHeaderChanged);
+        }
+        output.write_all(&self.header_data)?;
         if self.major_version >= 4 {
-            output.write_all(&crypto::sha256(&header_buf))?;
+            output.write_all(&crypto::sha256(&self.header_data))?;
             output.write_all(self.hmac.as_ref().unwrap())?;
         }
         output.write_all(&self.encrypted_data)?;
diff --git a/src/binary/read.rs b/src/binary/read.rs
index d28b66d..5292e22 100644
--- a/src/binary/read.rs
+++ b/src/binary/read.rs
@@ -46,6 +46,7 @@ pub fn from_reader<R: Read>(mut input: R) -> Result<Kdbx<Locked>, errors::OpenEr
     input.read_to_end(&mut encrypted_data)?;
 
     let state = Locked {
+        original_header: header.clone(),
         header,
         header_data,
         major_version,
-- 
2.43.0


From 64850e09479735e31dcf903bfa692478b71943ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:34 +0000
Subject: [PATCH 27/34] fix: exit with a usage message when the file argument
 is missing

The tools panicked instead. kdbx-decrypt also panicked on documents that are
not UTF-8.
---
 src/bin/kdbx_decrypt.rs     | 14 ++++++++++----
 src/bin/kdbx_dump_header.rs |  5 +++--
 src/bin/kdbx_parse.rs       |  5 +++--
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/bin/kdbx_decrypt.rs b/src/bin/kdbx_decrypt.rs
index 87c47f9..90e9de4 100644
--- a/src/bin/kdbx_decrypt.rs
+++ b/src/bin/kdbx_decrypt.rs
@@ -3,15 +3,21 @@
 //! Primarily for investigating the kdbx format. It takes the password
 //! on the CLI, which is insecure
 
+use std::io::Write;
+
 fn main() -> Result<(), kdbx_rs::Error> {
     let args: Vec<String> = std::env::args().collect();
-    if args.is_empty() {
-        println!("Usage: kdbx-decrypt <path to kdbx file> <password>");
+    if args.len() < 2 {
+        eprintln!("Usage: kdbx-decrypt <path to kdbx file> <password>");
+        std::process::exit(2);
     }
     let kdbx = kdbx_rs::open(&args[1])?;
     let key = kdbx_rs::CompositeKey::from_password(args.get(2).unwrap_or(&"kdbxrs".to_string()));
     let kdbx = kdbx.unlock(&key)?;
-    let data: Vec<u8> = kdbx.raw_xml().unwrap().to_vec();
-    println!("{}", String::from_utf8(data).unwrap());
+    let mut data: Vec<u8> = kdbx.raw_xml().unwrap().to_vec();
+    data.push(b'\n');
+    std::io::stdout()
+        .write_all(&data)
+        .map_err(kdbx_rs::errors::WriteError::from)?;
     Ok(())
 }
diff --git a/src/bin/kdbx_dump_header.rs b/src/bin/kdbx_dump_header.rs
index 5582ac6..30ccb2a 100644
--- a/src/bin/kdbx_dump_header.rs
+++ b/src/bin/kdbx_dump_header.rs
@@ -39,8 +39,9 @@ fn print_kdf(params: &kdbx_rs::binary::KdfParams) {
 
 fn main() -> Result<(), kdbx_rs::Error> {
     let args: Vec<String> = std::env::args().collect();
-    if args.is_empty() {
-        println!("Usage: kdbx-dump-header <path to kdbx file>");
+    if args.len() < 2 {
+        eprintln!("Usage: kdbx-dump-header <path to kdbx file>");
+        std::process::exit(2);
     }
     let kdbx = kdbx_rs::open(&args[1])?;
     let header = kdbx.header();
diff --git a/src/bin/kdbx_parse.rs b/src/bin/kdbx_parse.rs
index 4e1e525..770ef01 100644
--- a/src/bin/kdbx_parse.rs
+++ b/src/bin/kdbx_parse.rs
@@ -5,8 +5,9 @@
 
 fn main() -> Result<(), kdbx_rs::Error> {
     let args: Vec<String> = std::env::args().collect();
-    if args.is_empty() {
-        println!("Usage: kdbx-decrypt <path to kdbx file> <password>");
+    if args.len() < 2 {
+        eprintln!("Usage: kdbx-parse <path to kdbx file> <password>");
+        std::process::exit(2);
     }
     let kdbx = kdbx_rs::open(&args[1])?;
     let key = kdbx_rs::CompositeKey::from_password(args.get(2).unwrap_or(&"kdbxrs".to_string()));
-- 
2.43.0


From 393d55776f20b8bb682e212b2b3b9565e3e3b7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:37 +0000
Subject: [PATCH 28/34] fix: accept file names that are not valid UTF-8 on the
 command line

Collecting such arguments as strings panics.
---
 src/bin/kdbx_decrypt.rs     | 5 +++--
 src/bin/kdbx_dump_header.rs | 2 +-
 src/bin/kdbx_parse.rs       | 5 +++--
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/bin/kdbx_decrypt.rs b/src/bin/kdbx_decrypt.rs
index 90e9de4..120901c 100644
--- a/src/bin/kdbx_decrypt.rs
+++ b/src/bin/kdbx_decrypt.rs
@@ -6,13 +6,14 @@
 use std::io::Write;
 
 fn main() -> Result<(), kdbx_rs::Error> {
-    let args: Vec<String> = std::env::args().collect();
+    let args: Vec<std::ffi::OsString> = std::env::args_os().collect();
     if args.len() < 2 {
         eprintln!("Usage: kdbx-decrypt <path to kdbx file> <password>");
         std::process::exit(2);
     }
     let kdbx = kdbx_rs::open(&args[1])?;
-    let key = kdbx_rs::CompositeKey::from_password(args.get(2).unwrap_or(&"kdbxrs".to_string()));
+    let password = args.get(2).map(|arg| arg.to_string_lossy());
+    let key = kdbx_rs::CompositeKey::from_password(password.as_deref().unwrap_or("kdbxrs"));
     let kdbx = kdbx.unlock(&key)?;
     let mut data: Vec<u8> = kdbx.raw_xml().unwrap().to_vec();
     data.push(b'\n');
diff --git a/src/bin/kdbx_dump_header.rs b/src/bin/kdbx_dump_header.rs
index 30ccb2a..a0bd0a1 100644
--- a/src/bin/kdbx_dump_header.rs
+++ b/src/bin/kdbx_dump_header.rs
@@ -38,7 +38,7 @@ fn print_kdf(params: &kdbx_rs::binary::KdfParams) {
 }
 
 fn main() -> Result<(), kdbx_rs::Error> {
-    let args: Vec<String> = std::env::args().collect();
+    let args: Vec<std::ffi::OsString> = std::env::args_os().collect();
     if args.len() < 2 {
         eprintln!("Usage: kdbx-dump-header <path to kdbx file>");
         std::process::exit(2);
diff --git a/src/bin/kdbx_parse.rs b/src/bin/kdbx_parse.rs
index 770ef01..68e83cd 100644
--- a/src/bin/kdbx_parse.rs
+++ b/src/bin/kdbx_parse.rs
@@ -4,13 +4,14 @@
 //! Primarily for verifying kdbx-rs changes
 
 fn main() -> Result<(), kdbx_rs::Error> {
-    let args: Vec<String> = std::env::args().collect();
+    let args: Vec<std::ffi::OsString> = std::env::args_os().collect();
     if args.len() < 2 {
         eprintln!("Usage: kdbx-parse <path to kdbx file> <password>");
         std::process::exit(2);
     }
     let kdbx = kdbx_rs::open(&args[1])?;
-    let key = kdbx_rs::CompositeKey::from_password(args.get(2).unwrap_or(&"kdbxrs".to_string()));
+    let password = args.get(2).map(|arg| arg.to_string_lossy());
+    let key = kdbx_rs::CompositeKey::from_password(password.as_deref().unwrap_or("kdbxrs"));
     let kdbx = kdbx.unlock(&key)?;
     println!("{:#?}", kdbx.database());
     Ok(())
-- 
2.43.0


From 46d1244ba34d8781e46386f2805e4a4562b98233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:37 +0000
Subject: [PATCH 29/34] fix: report output errors of kdbx-generate instead of
 panicking

---
 src/bin/kdbx_generate.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bin/kdbx_generate.rs b/src/bin/kdbx_generate.rs
index bba971e..d5a03ab 100644
--- a/src/bin/kdbx_generate.rs
+++ b/src/bin/kdbx_generate.rs
@@ -3,6 +3,7 @@
 //! Primarily for verifying kdbx-rs changes
 
 use kdbx_rs::database::{Entry, Times};
+use kdbx_rs::errors::WriteError;
 use kdbx_rs::{CompositeKey, Database, Error, Kdbx};
 
 use chrono::NaiveDate;
@@ -57,10 +58,10 @@ fn main() -> Result<(), Error> {
     root.add_entry(entry);
 
     let output_path = PathBuf::from("kdbx_rs.kdbx");
-    let mut file = File::create(output_path).expect("Could not open output file");
+    let mut file = File::create(output_path).map_err(WriteError::from)?;
 
     let mut kdbx = Kdbx::from_database(db);
     kdbx.set_key(CompositeKey::from_password("kdbxrs"))?;
-    kdbx.write(&mut file).expect("Could not write to file");
+    kdbx.write(&mut file)?;
     Ok(())
 }
-- 
2.43.0


From f53e3c4f59e94097c564b64443139223f0460850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:17:46 +0000
Subject: [PATCH 30/34] fix: limit the nesting of groups and histories

A document with some thousand nested groups overflowed the stack, which
aborts the process. Reading and writing now report it as an error.
---
 src/xml.rs           |  5 +++++
 src/xml/parse.rs     | 23 ++++++++++++++++++-----
 src/xml/serialize.rs | 20 ++++++++++++++++----
 3 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/src/xml.rs b/src/xml.rs
index 357a44a..a24066f 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -4,6 +4,11 @@ mod decoders;
 pub(crate) mod parse;
 pub(crate) mod serialize;
 
+/// Deepest nesting of groups and histories that is read or written
+///
+/// This keeps documents with excessive nesting from exhausting the stack.
+pub const MAX_NESTING: usize = 256;
+
 pub use crate::stream::random::InnerStreamError;
 pub use decoders::{decode_datetime, decode_uuid, encode_datetime, encode_uuid};
 pub use parse::parse_xml;
diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index 529f363..d548892 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -1,4 +1,5 @@
 use super::decoders::{decode_datetime, decode_uuid};
+use super::MAX_NESTING;
 use crate::database::{
     Database, Entry, Field, Group, History, MemoryProtection, Meta, Times, Value,
 };
@@ -32,6 +33,9 @@ pub enum Error {
     /// A string field did not decrypt correctly
     #[error("Could not decrypt value for Key {0:?}")]
     DecryptFailed(String),
+    /// Groups or histories are nested deeper than [`MAX_NESTING`](crate::xml::MAX_NESTING)
+    #[error("Groups or histories are nested too deeply")]
+    NestedTooDeeply,
 }
 
 pub type Result<T> = std::result::Result<T, Error>;
@@ -198,12 +202,13 @@ fn parse_field<R: Read, S: StreamCipher + ?Sized>(
 fn parse_history<R: Read, S: StreamCipher + ?Sized>(
     xml_event_reader: &mut EventReader<R>,
     stream_cipher: &mut S,
+    depth: usize,
 ) -> Result<History> {
     let mut history = History::default();
     loop {
         match xml_event_reader.next()? {
             XmlEvent::StartElement { name, .. } if &name.local_name == "Entry" => {
-                history.push(parse_entry(xml_event_reader, stream_cipher)?);
+                history.push(parse_entry(xml_event_reader, stream_cipher, depth + 1)?);
             }
             XmlEvent::StartElement { attributes, .. } => {
                 skip_element(xml_event_reader, &attributes, stream_cipher)?;
@@ -253,7 +258,11 @@ fn parse_times<R: Read, S: StreamCipher + ?Sized>(
 fn parse_entry<R: Read, S: StreamCipher + ?Sized>(
     xml_event_reader: &mut EventReader<R>,
     stream_cipher: &mut S,
+    depth: usize,
 ) -> Result<Entry> {
+    if depth > MAX_NESTING {
+        return Err(Error::NestedTooDeeply);
+    }
     let mut entry = Entry::default();
     loop {
         match xml_event_reader.next()? {
@@ -261,7 +270,7 @@ fn parse_entry<R: Read, S: StreamCipher + ?Sized>(
                 name, attributes, ..
             } => {
                 if &name.local_name == "History" {
-                    entry.history = parse_history(xml_event_reader, stream_cipher)?;
+                    entry.history = parse_history(xml_event_reader, stream_cipher, depth)?;
                 } else if &name.local_name == "String" {
                     entry.add_field(parse_field(xml_event_reader, "String", stream_cipher)?);
                 } else if &name.local_name == "UUID" {
@@ -282,7 +291,11 @@ fn parse_entry<R: Read, S: StreamCipher + ?Sized>(
 fn parse_group<R: Read, S: StreamCipher + ?Sized>(
     xml_event_reader: &mut EventReader<R>,
     stream_cipher: &mut S,
+    depth: usize,
 ) -> Result<Group> {
+    if depth > MAX_NESTING {
+        return Err(Error::NestedTooDeeply);
+    }
     let mut group = Group::default();
     loop {
         match xml_event_reader.next()? {
@@ -290,9 +303,9 @@ fn parse_group<R: Read, S: StreamCipher + ?Sized>(
                 name, attributes, ..
             } => {
                 if &name.local_name == "Group" {
-                    group.add_group(parse_group(xml_event_reader, stream_cipher)?);
+                    group.add_group(parse_group(xml_event_reader, stream_cipher, depth + 1)?);
                 } else if &name.local_name == "Entry" {
-                    group.add_entry(parse_entry(xml_event_reader, stream_cipher)?);
+                    group.add_entry(parse_entry(xml_event_reader, stream_cipher, depth)?);
                 } else if &name.local_name == "UUID" {
                     group.set_uuid(parse_uuid(xml_event_reader)?);
                 } else if &name.local_name == "Name" {
@@ -318,7 +331,7 @@ fn parse_root<R: Read, S: StreamCipher + ?Sized>(
     loop {
         match xml_event_reader.next()? {
             XmlEvent::StartElement { name, .. } if &name.local_name == "Group" => {
-                groups.push(parse_group(xml_event_reader, stream_cipher)?);
+                groups.push(parse_group(xml_event_reader, stream_cipher, 1)?);
             }
             XmlEvent::StartElement { attributes, .. } => {
                 skip_element(xml_event_reader, &attributes, stream_cipher)?;
diff --git a/src/xml/serialize.rs b/src/xml/serialize.rs
index 1da43a7..a8e871d 100644
--- a/src/xml/serialize.rs
+++ b/src/xml/serialize.rs
@@ -1,4 +1,5 @@
 use super::decoders::{encode_datetime, encode_uuid};
+use super::MAX_NESTING;
 use crate::database::{Database, Entry, Field, Group, MemoryProtection, Meta, Times, Value};
 use base64::prelude::{Engine, BASE64_STANDARD};
 use cipher::StreamCipher;
@@ -22,6 +23,9 @@ pub enum Error {
     /// A field has an empty name
     #[error("A field has an empty name")]
     KeyEmptyName,
+    /// Groups or histories are nested deeper than [`MAX_NESTING`](crate::xml::MAX_NESTING)
+    #[error("Groups or histories are nested too deeply")]
+    NestedTooDeeply,
 }
 
 type Result<T> = std::result::Result<T, Error>;
@@ -149,7 +153,11 @@ fn write_entry<W: Write, S: StreamCipher + ?Sized>(
     writer: &mut XmlWriter<W>,
     entry: &Entry,
     stream_cipher: &mut S,
+    depth: usize,
 ) -> Result<()> {
+    if depth > MAX_NESTING {
+        return Err(Error::NestedTooDeeply);
+    }
     writer.write(XmlEvent::start_element("Entry"))?;
     write_string_tag(writer, "UUID", &encode_uuid(entry.uuid()))?;
     write_times(writer, &entry.times)?;
@@ -159,7 +167,7 @@ fn write_entry<W: Write, S: StreamCipher + ?Sized>(
     if !entry.history.is_empty() {
         writer.write(XmlEvent::start_element("History"))?;
         for old_entry in entry.history.entries() {
-            write_entry(writer, old_entry, stream_cipher)?;
+            write_entry(writer, old_entry, stream_cipher, depth + 1)?;
         }
         writer.write(XmlEvent::end_element())?;
     }
@@ -171,16 +179,20 @@ fn write_group<W: Write, S: StreamCipher + ?Sized>(
     writer: &mut XmlWriter<W>,
     group: &Group,
     stream_cipher: &mut S,
+    depth: usize,
 ) -> Result<()> {
+    if depth > MAX_NESTING {
+        return Err(Error::NestedTooDeeply);
+    }
     writer.write(XmlEvent::start_element("Group"))?;
     write_string_tag(writer, "UUID", encode_uuid(group.uuid()))?;
     write_string_tag(writer, "Name", group.name())?;
     write_times(writer, &group.times)?;
     for entry in group.entries() {
-        write_entry(writer, entry, stream_cipher)?;
+        write_entry(writer, entry, stream_cipher, depth)?;
     }
     for group in group.groups() {
-        write_group(writer, group, stream_cipher)?;
+        write_group(writer, group, stream_cipher, depth + 1)?;
     }
     writer.write(XmlEvent::end_element())?;
     Ok(())
@@ -219,7 +231,7 @@ pub(crate) fn xml_document<S: StreamCipher + ?Sized>(
     write_meta(&mut writer, &database.meta, stream_cipher)?;
     writer.write(XmlEvent::start_element("Root"))?;
     for group in &database.groups {
-        write_group(&mut writer, group, stream_cipher)?;
+        write_group(&mut writer, group, stream_cipher, 1)?;
     }
     writer.write(XmlEvent::end_element())?;
     writer.write(XmlEvent::end_element())?;
-- 
2.43.0


From 4bb8450f2851a98f174718188b0081925ffcb103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:22:11 +0000
Subject: [PATCH 31/34] fix: escape carriage returns in text values

Conforming XML readers replace an unescaped carriage return by a newline, so
other programs read a different text than the one saved.
---
 src/xml/serialize.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/xml/serialize.rs b/src/xml/serialize.rs
index a8e871d..93f051f 100644
--- a/src/xml/serialize.rs
+++ b/src/xml/serialize.rs
@@ -5,6 +5,7 @@ use base64::prelude::{Engine, BASE64_STANDARD};
 use cipher::StreamCipher;
 use std::io::Write;
 use thiserror::Error;
+use xml::escape::escape_str_pcdata;
 use xml::writer::events::XmlEvent;
 use xml::writer::EventWriter as XmlWriter;
 
@@ -49,8 +50,10 @@ fn write_string_tag<W: Write, S: AsRef<str>>(
     if let Some(c) = value.as_ref().chars().find(|c| !is_xml_char(*c)) {
         return Err(Error::InvalidCharacter(c));
     }
+    // XML readers turn an unescaped carriage return into a newline
+    let escaped = escape_str_pcdata(value.as_ref()).replace('\r', "&#xD;");
     writer.write(XmlEvent::start_element(name))?;
-    writer.write(XmlEvent::characters(value.as_ref()))?;
+    writer.write(XmlEvent::characters(&escaped))?;
     writer.write(XmlEvent::end_element())?;
     Ok(())
 }
@@ -222,9 +225,11 @@ pub(crate) fn xml_document<S: StreamCipher + ?Sized>(
     database: &Database,
     stream_cipher: &mut S,
 ) -> Result<Vec<u8>> {
-    let config = xml::EmitterConfig::default()
+    let mut config = xml::EmitterConfig::default()
         .perform_indent(true)
         .indent_string("\t");
+    // Text is escaped by write_string_tag
+    config.perform_escaping = false;
     let mut document = Vec::new();
     let mut writer = xml::EventWriter::new_with_config(&mut document, config);
     writer.write(XmlEvent::start_element("KeePassFile"))?;
-- 
2.43.0


From 9db5ce33ad6dde7793c7a135899523ae6e1d2df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:42 +0000
Subject: [PATCH 32/34] fix: report why reading an XML source failed

---
 src/xml/parse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index d548892..a445aa7 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -42,7 +42,10 @@ pub type Result<T> = std::result::Result<T, Error>;
 
 impl From<xml::reader::Error> for Error {
     fn from(e: xml::reader::Error) -> Error {
-        Error::Xml(e.msg().to_string())
+        match e.kind() {
+            xml::reader::ErrorKind::Io(io_error) => Error::Xml(io_error.to_string()),
+            _ => Error::Xml(e.msg().to_string()),
+        }
     }
 }
 
-- 
2.43.0


From 6d3e08dbe35c71c3e1644879745b875b849fb0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:01:28 +0000
Subject: [PATCH 33/34] fix: name the right key derivation when one of its
 parameters is missing

---
 src/binary/header_fields.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/binary/header_fields.rs b/src/binary/header_fields.rs
index e68fcce..ced65b1 100644
--- a/src/binary/header_fields.rs
+++ b/src/binary/header_fields.rs
@@ -205,12 +205,11 @@ impl TryFrom<VariantDict> for KdfParams {
 
         match kdf_algorithm {
             KdfAlgorithm::Argon2d | KdfAlgorithm::Argon2id => {
-                let memory_bytes =
-                    KdfParams::opt_from_vdict("M", KdfAlgorithm::Argon2d, &mut vdict)?;
-                let version = KdfParams::opt_from_vdict("V", KdfAlgorithm::Argon2d, &mut vdict)?;
-                let salt = KdfParams::opt_from_vdict("S", KdfAlgorithm::Argon2d, &mut vdict)?;
-                let iterations = KdfParams::opt_from_vdict("I", KdfAlgorithm::Argon2d, &mut vdict)?;
-                let lanes = KdfParams::opt_from_vdict("P", KdfAlgorithm::Argon2d, &mut vdict)?;
+                let memory_bytes = KdfParams::opt_from_vdict("M", kdf_algorithm, &mut vdict)?;
+                let version = KdfParams::opt_from_vdict("V", kdf_algorithm, &mut vdict)?;
+                let salt = KdfParams::opt_from_vdict("S", kdf_algorithm, &mut vdict)?;
+                let iterations = KdfParams::opt_from_vdict("I", kdf_algorithm, &mut vdict)?;
+                let lanes = KdfParams::opt_from_vdict("P", kdf_algorithm, &mut vdict)?;
                 Ok(KdfParams::Argon2 {
                     variant: utils::argon2_algo_to_variant(kdf_algorithm),
                     memory_bytes,
@@ -221,9 +220,8 @@ impl TryFrom<VariantDict> for KdfParams {
                 })
             }
             KdfAlgorithm::Aes256_Kdbx3_1 | KdfAlgorithm::Aes256_Kdbx4 => {
-                let rounds =
-                    KdfParams::opt_from_vdict("R", KdfAlgorithm::Aes256_Kdbx4, &mut vdict)?;
-                let salt = KdfParams::opt_from_vdict("S", KdfAlgorithm::Aes256_Kdbx4, &mut vdict)?;
+                let rounds = KdfParams::opt_from_vdict("R", kdf_algorithm, &mut vdict)?;
+                let salt = KdfParams::opt_from_vdict("S", kdf_algorithm, &mut vdict)?;
                 Ok(KdfParams::Aes { rounds, salt })
             }
             _ => Ok(KdfParams::Unknown {
-- 
2.43.0


From 9f780b277d4d345b1e413141fabc4900c0421697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:01:28 +0000
Subject: [PATCH 34/34] fix: give new items the present time in UTC

---
 src/database.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/database.rs b/src/database.rs
index 33ae260..17bcf91 100644
--- a/src/database.rs
+++ b/src/database.rs
@@ -752,8 +752,9 @@ pub struct Times {
 
 impl Default for Times {
     fn default() -> Times {
-        let now = chrono::Local::now()
-            .naive_local()
+        // Times are stored in UTC
+        let now = chrono::Utc::now()
+            .naive_utc()
             .with_nanosecond(0)
             .unwrap();
         Times {
-- 
2.43.0

