From c9a7d14e34b32a8308828d6b1acd5e5ac4f9f62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:17 +0000
Subject: [PATCH 01/28] fix: follow public imports transitively when resolving
 names

---
 prost-reflect/src/descriptor/build/resolve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index 5a80342..7f888b6 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -421,7 +421,7 @@ impl ResolveVisitor<'_> {
         for (i, dependency) in file.raw.dependency.iter().enumerate() {
             if let Some(&dependency_index) = self.pool.file_names.get(dependency.as_str()) {
                 if file.raw.public_dependency.contains(&(i as i32))
-                    && !dependencies.insert(dependency_index)
+                    && dependencies.insert(dependency_index)
                 {
                     self.resolve_public_dependencies(dependencies, dependency_index);
                 }
-- 
2.43.0


From 52e46f5cfdc8fbf3dc64c84d475419e9878428b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:17 +0000
Subject: [PATCH 02/28] fix: restore message extensions when rolling back a
 failed build

---
 prost-reflect/src/descriptor/build/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prost-reflect/src/descriptor/build/mod.rs b/prost-reflect/src/descriptor/build/mod.rs
index ea94ca0..ae26778 100644
--- a/prost-reflect/src/descriptor/build/mod.rs
+++ b/prost-reflect/src/descriptor/build/mod.rs
@@ -95,7 +95,9 @@ impl DescriptorPoolOffsets {
         });
         pool.file_names.retain(|_, &mut file| file < self.file);
         for message in &mut pool.messages {
-            message.extensions.retain(|&message| message < self.message);
+            message
+                .extensions
+                .retain(|&extension| extension < self.extension);
         }
     }
 }
-- 
2.43.0


From d9d2182cb7dd02f1872654746c24ca3eeab89c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:42 +0000
Subject: [PATCH 03/28] fix: report unknown syntax instead of panicking

---
 prost-reflect/src/descriptor/build/names.rs | 31 +++++++++++----------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/names.rs b/prost-reflect/src/descriptor/build/names.rs
index 2332a36..77fa1e1 100644
--- a/prost-reflect/src/descriptor/build/names.rs
+++ b/prost-reflect/src/descriptor/build/names.rs
@@ -51,21 +51,10 @@ impl Visitor for NameVisitor<'_> {
     fn visit_file(&mut self, path: &[i32], index: FileIndex, file: &FileDescriptorProto) {
         debug_assert_eq!(to_index(self.pool.files.len()), index);
 
-        let syntax = match file.syntax.as_deref() {
-            None | Some("proto2") => Syntax::Proto2,
-            Some("proto3") => Syntax::Proto3,
-            Some(syntax) => {
-                self.errors.push(DescriptorErrorKind::UnknownSyntax {
-                    syntax: syntax.to_owned(),
-                    found: Label::new(
-                        &self.pool.files,
-                        "found here",
-                        index,
-                        join_path(path, &[tag::file::SYNTAX]),
-                    ),
-                });
-                return;
-            }
+        let (syntax, unknown_syntax) = match file.syntax.as_deref() {
+            None | Some("proto2") => (Syntax::Proto2, None),
+            Some("proto3") => (Syntax::Proto3, None),
+            Some(syntax) => (Syntax::Proto2, Some(syntax)),
         };
 
         if self
@@ -86,6 +75,18 @@ impl Visitor for NameVisitor<'_> {
             transitive_dependencies: HashSet::default(),
         });
 
+        if let Some(syntax) = unknown_syntax {
+            self.errors.push(DescriptorErrorKind::UnknownSyntax {
+                syntax: syntax.to_owned(),
+                found: Label::new(
+                    &self.pool.files,
+                    "found here",
+                    index,
+                    join_path(path, &[tag::file::SYNTAX]),
+                ),
+            });
+        }
+
         if !file.package().is_empty() {
             for (i, _) in file.package().match_indices('.') {
                 self.add_name(
-- 
2.43.0


From 7bc91c85a1a3d02d5c58a96c4ee6b13c3e2bcc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:01 +0000
Subject: [PATCH 04/28] fix: reject out of range escapes in bytes default
 values

---
 prost-reflect/src/descriptor/build/resolve.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index 7f888b6..259f8f2 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -855,23 +855,26 @@ fn unescape_c_escape_string(s: &str) -> Result<Bytes, &'static str> {
                     p += 1;
                 }
                 b'0'..=b'7' => {
-                    let mut octal = 0;
+                    let mut octal = 0u32;
                     for _ in 0..3 {
                         if p < len && src[p] >= b'0' && src[p] <= b'7' {
-                            octal = octal * 8 + (src[p] - b'0');
+                            octal = octal * 8 + u32::from(src[p] - b'0');
                             p += 1;
                         } else {
                             break;
                         }
                     }
-                    dst.push(octal);
+                    match u8::try_from(octal) {
+                        Ok(b) => dst.push(b),
+                        Err(_) => return Err("octal escape must be at most 0o377"),
+                    }
                 }
                 b'x' | b'X' => {
                     if p + 3 > len {
                         return Err("hex escape must contain two characters");
                     }
-                    match u8::from_str_radix(&s[p + 1..p + 3], 16) {
-                        Ok(b) => dst.push(b),
+                    match (hex_digit(src[p + 1]), hex_digit(src[p + 2])) {
+                        (Some(hi), Some(lo)) => dst.push(hi << 4 | lo),
                         _ => return Err("invalid hex escape"),
                     }
                     p += 3;
@@ -883,6 +886,10 @@ fn unescape_c_escape_string(s: &str) -> Result<Bytes, &'static str> {
     Ok(dst.into())
 }
 
+fn hex_digit(ch: u8) -> Option<u8> {
+    char::from(ch).to_digit(16).map(|digit| digit as u8)
+}
+
 fn set_type_name(
     file: &mut FileDescriptorProto,
     path: &[i32],
-- 
2.43.0


From 811cb75e0175283b3856dadf84aeca13d8ba6eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:01 +0000
Subject: [PATCH 05/28] fix: keep the proto3 packed default when a field has
 other options

---
 prost-reflect/src/descriptor/build/resolve.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index 259f8f2..42a9661 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -123,7 +123,8 @@ impl Visitor for ResolveVisitor<'_> {
             && (field
                 .options
                 .as_ref()
-                .map_or(syntax == Syntax::Proto3, |o| o.value.packed()));
+                .and_then(|o| o.value.packed)
+                .unwrap_or(syntax == Syntax::Proto3));
 
         let supports_presence = field.proto3_optional()
             || field.oneof_index.is_some()
@@ -394,7 +395,8 @@ impl Visitor for ResolveVisitor<'_> {
             && (extension
                 .options
                 .as_ref()
-                .map_or(syntax == Syntax::Proto3, |o| o.value.packed()));
+                .and_then(|o| o.value.packed)
+                .unwrap_or(syntax == Syntax::Proto3));
 
         let default = kind.and_then(|kind| {
             self.parse_field_default_value(kind, extension.default_value.as_deref(), file, path)
-- 
2.43.0


From be8931b7a2a22063c02f0acdff61ca6d4c11520c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:40 +0000
Subject: [PATCH 06/28] fix: ignore definitions from files that are not
 imported when resolving relative names

---
 prost-reflect/src/descriptor/build/mod.rs     | 29 +++++++++++++++++--
 prost-reflect/src/descriptor/build/options.rs |  1 +
 prost-reflect/src/descriptor/build/resolve.rs |  1 +
 3 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/mod.rs b/prost-reflect/src/descriptor/build/mod.rs
index ae26778..87162b8 100644
--- a/prost-reflect/src/descriptor/build/mod.rs
+++ b/prost-reflect/src/descriptor/build/mod.rs
@@ -316,6 +316,7 @@ fn to_json_name(name: &str) -> String {
 }
 
 fn resolve_name<'a, 'b>(
+    files: &[FileDescriptorInner],
     dependencies: &HashSet<FileIndex>,
     names: &'a HashMap<Box<str>, Definition>,
     scope: &str,
@@ -325,11 +326,12 @@ fn resolve_name<'a, 'b>(
     match name.strip_prefix('.') {
         Some(full_name) => ResolveNameResult::new(dependencies, names, full_name, filter),
         None if scope.is_empty() => ResolveNameResult::new(dependencies, names, name, filter),
-        None => resolve_relative_name(dependencies, names, scope, name, filter),
+        None => resolve_relative_name(files, dependencies, names, scope, name, filter),
     }
 }
 
 fn resolve_relative_name<'a, 'b>(
+    files: &[FileDescriptorInner],
     dependencies: &HashSet<FileIndex>,
     names: &'a HashMap<Box<str>, Definition>,
     scope: &str,
@@ -356,7 +358,9 @@ fn resolve_relative_name<'a, 'b>(
         } else {
             // Looking up a name including a namespace e.g. `foo.Foo`. First determine the scope using the first component of the name.
             match names.get(candidate.as_ref()) {
-                Some(def) if def.kind.is_parent() => {
+                Some(def)
+                    if def.kind.is_parent() && is_visible(files, dependencies, &candidate, def) =>
+                {
                     let candidate_full = match candidate_parent {
                         "" => Cow::Borrowed(relative_name),
                         _ => Cow::Owned(format!("{candidate_parent}.{relative_name}")),
@@ -381,6 +385,27 @@ fn resolve_relative_name<'a, 'b>(
     err.into_owned()
 }
 
+/// Returns whether a definition comes from one of the files in `dependencies`.
+///
+/// A package can be declared by any number of files, but only the first one is recorded
+/// in its definition.
+fn is_visible(
+    files: &[FileDescriptorInner],
+    dependencies: &HashSet<FileIndex>,
+    name: &str,
+    def: &Definition,
+) -> bool {
+    dependencies.contains(&def.file)
+        || (matches!(def.kind, DefinitionKind::Package)
+            && dependencies.iter().any(|&file| {
+                files[file as usize]
+                    .raw
+                    .package()
+                    .strip_prefix(name)
+                    .is_some_and(|rest| rest.is_empty() || rest.starts_with('.'))
+            }))
+}
+
 fn resolve_relative_candidate_parents(scope: &str) -> impl Iterator<Item = &str> {
     iter::once(scope)
         .chain(scope.rmatch_indices('.').map(move |(i, _)| &scope[..i]))
diff --git a/prost-reflect/src/descriptor/build/options.rs b/prost-reflect/src/descriptor/build/options.rs
index 6aa38c9..1084a49 100644
--- a/prost-reflect/src/descriptor/build/options.rs
+++ b/prost-reflect/src/descriptor/build/options.rs
@@ -521,6 +521,7 @@ impl OptionsVisitor<'_> {
         extendee: &MessageDescriptor,
     ) -> Result<ExtensionDescriptor, DescriptorErrorKind> {
         let (_, def) = resolve_name(
+            &self.pool.inner.files,
             &self.pool.inner.files[file as usize].transitive_dependencies,
             &self.pool.inner.names,
             scope,
diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index 42a9661..530f55b 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -725,6 +725,7 @@ impl ResolveVisitor<'_> {
         filter: ResolveNameFilter,
     ) -> Option<&Definition> {
         let (type_name, def) = match resolve_name(
+            &self.pool.files,
             &self.pool.files[file as usize].transitive_dependencies,
             &self.pool.names,
             scope,
-- 
2.43.0


From a06c1f104aae681f375856fd8efdaeb262207133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:09 +0000
Subject: [PATCH 07/28] fix: reject map fields with a malformed entry message

---
 prost-reflect/src/descriptor/build/mod.rs     |  3 +
 prost-reflect/src/descriptor/build/resolve.rs | 85 ++++++++++++++++++-
 prost-reflect/src/descriptor/error.rs         | 18 ++++
 3 files changed, 104 insertions(+), 2 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/mod.rs b/prost-reflect/src/descriptor/build/mod.rs
index 87162b8..9443606 100644
--- a/prost-reflect/src/descriptor/build/mod.rs
+++ b/prost-reflect/src/descriptor/build/mod.rs
@@ -137,11 +137,14 @@ impl DescriptorPool {
         inner.collect_names(offsets, deduped_files)?;
 
         inner.resolve_names(offsets, deduped_files)?;
+        inner.check_map_fields(offsets)?;
 
         self.resolve_options(offsets, deduped_files)?;
 
         debug_assert_eq!(Arc::strong_count(&self.inner), 1);
         let inner = Arc::get_mut(&mut self.inner).unwrap();
+        // Resolving options may set the `map_entry` option
+        inner.check_map_fields(offsets)?;
         for file in &mut inner.files[offsets.file as usize..] {
             file.prost = file.raw.to_prost();
         }
diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index 530f55b..88eca61 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -19,8 +19,8 @@ use crate::{
         Definition, DefinitionKind, DescriptorPoolInner, EnumIndex, EnumValueIndex,
         ExtensionDescriptorInner, ExtensionIndex, FieldDescriptorInner, FieldIndex, FileIndex,
         Identity, KindIndex, MessageIndex, MethodDescriptorInner, MethodIndex, OneofIndex,
-        ServiceDescriptorInner, ServiceIndex, RESERVED_MESSAGE_FIELD_NUMBERS,
-        VALID_MESSAGE_FIELD_NUMBERS,
+        ServiceDescriptorInner, ServiceIndex, MAP_ENTRY_KEY_NUMBER, MAP_ENTRY_VALUE_NUMBER,
+        RESERVED_MESSAGE_FIELD_NUMBERS, VALID_MESSAGE_FIELD_NUMBERS,
     },
     Cardinality, Syntax, Value,
 };
@@ -42,6 +42,64 @@ impl DescriptorPoolInner {
             Err(DescriptorError::new(visitor.errors))
         }
     }
+
+    /// Checks that the type of each map field has the fields required to represent an entry of a map.
+    pub(super) fn check_map_fields(
+        &self,
+        offsets: DescriptorPoolOffsets,
+    ) -> Result<(), DescriptorError> {
+        let fields = self.messages[offsets.message as usize..]
+            .iter()
+            .flat_map(|message| &message.fields)
+            .map(|field| (&field.id, field.cardinality, field.kind));
+        let extensions = self.extensions[offsets.extension as usize..]
+            .iter()
+            .map(|extension| (&extension.id, extension.cardinality, extension.kind));
+
+        let mut errors = vec![];
+        for (id, cardinality, kind) in fields.chain(extensions) {
+            if let KindIndex::Message(entry) | KindIndex::Group(entry) = kind {
+                if cardinality == Cardinality::Repeated && self.is_invalid_map_entry(entry) {
+                    errors.push(DescriptorErrorKind::InvalidMapEntry {
+                        name: self.messages[entry as usize].id.full_name().to_owned(),
+                        found: Label::new(
+                            &self.files,
+                            "used here",
+                            id.file,
+                            join_path(&id.path, &[tag::field::TYPE_NAME]),
+                        ),
+                    });
+                }
+            }
+        }
+
+        if errors.is_empty() {
+            Ok(())
+        } else {
+            Err(DescriptorError::new(errors))
+        }
+    }
+
+    fn is_invalid_map_entry(&self, message: MessageIndex) -> bool {
+        let message = &self.messages[message as usize];
+        let message_proto =
+            find_message_proto(&self.files[message.id.file as usize].raw, &message.id.path);
+        let is_map_entry = message_proto
+            .options
+            .as_ref()
+            .is_some_and(|o| o.value.map_entry());
+        let singular_field = |number| {
+            message
+                .field_numbers
+                .get(&number)
+                .map(|&index| &message.fields[index as usize])
+                .filter(|field| field.cardinality != Cardinality::Repeated)
+        };
+
+        is_map_entry
+            && !(singular_field(MAP_ENTRY_KEY_NUMBER).is_some_and(|key| is_valid_map_key(key.kind))
+                && singular_field(MAP_ENTRY_VALUE_NUMBER).is_some())
+    }
 }
 
 struct ResolveVisitor<'a> {
@@ -769,6 +827,29 @@ impl ResolveVisitor<'_> {
     }
 }
 
+fn is_valid_map_key(kind: KindIndex) -> bool {
+    match kind {
+        KindIndex::Int32
+        | KindIndex::Int64
+        | KindIndex::Uint32
+        | KindIndex::Uint64
+        | KindIndex::Sint32
+        | KindIndex::Sint64
+        | KindIndex::Fixed32
+        | KindIndex::Fixed64
+        | KindIndex::Sfixed32
+        | KindIndex::Sfixed64
+        | KindIndex::Bool
+        | KindIndex::String => true,
+        KindIndex::Double
+        | KindIndex::Float
+        | KindIndex::Bytes
+        | KindIndex::Message(_)
+        | KindIndex::Enum(_)
+        | KindIndex::Group(_) => false,
+    }
+}
+
 fn parse_simple_value(
     kind: KindIndex,
     value: &str,
diff --git a/prost-reflect/src/descriptor/error.rs b/prost-reflect/src/descriptor/error.rs
index 540ce2d..4b3e3fc 100644
--- a/prost-reflect/src/descriptor/error.rs
+++ b/prost-reflect/src/descriptor/error.rs
@@ -102,6 +102,10 @@ pub(super) enum DescriptorErrorKind {
         kind: String,
         found: Label,
     },
+    InvalidMapEntry {
+        name: String,
+        found: Label,
+    },
     EmptyEnum {
         found: Label,
     },
@@ -326,6 +330,7 @@ impl DescriptorErrorKind {
             DescriptorErrorKind::NameShadowed { found, .. } => Some(found),
             DescriptorErrorKind::InvalidType { found, .. } => Some(found),
             DescriptorErrorKind::InvalidFieldDefault { found, .. } => Some(found),
+            DescriptorErrorKind::InvalidMapEntry { found, .. } => Some(found),
             DescriptorErrorKind::EmptyEnum { found } => Some(found),
             DescriptorErrorKind::InvalidProto3EnumDefault { found } => Some(found),
             DescriptorErrorKind::DuplicateEnumNumber { second, .. } => Some(second),
@@ -398,6 +403,9 @@ impl DescriptorErrorKind {
             DescriptorErrorKind::InvalidFieldDefault { found, .. } => {
                 found.resolve_span(file, source);
             }
+            DescriptorErrorKind::InvalidMapEntry { found, .. } => {
+                found.resolve_span(file, source);
+            }
             DescriptorErrorKind::EmptyEnum { found } => {
                 found.resolve_span(file, source);
             }
@@ -544,6 +552,12 @@ impl fmt::Display for DescriptorErrorKind {
             DescriptorErrorKind::InvalidFieldDefault { value, kind, .. } => {
                 write!(f, "invalid default value '{value}' for type '{kind}'")
             }
+            DescriptorErrorKind::InvalidMapEntry { name, .. } => {
+                write!(
+                    f,
+                    "map entry '{name}' must have a singular key field with number 1 and a valid key type, and a singular value field with number 2",
+                )
+            }
             DescriptorErrorKind::EmptyEnum { .. } => {
                 write!(f, "enums must have at least one value")
             }
@@ -653,6 +667,7 @@ impl miette::Diagnostic for DescriptorErrorKind {
                 .map(|h| -> Box<dyn fmt::Display> { Box::new(h.clone()) }),
             DescriptorErrorKind::InvalidType { .. } => None,
             DescriptorErrorKind::InvalidFieldDefault { .. } => None,
+            DescriptorErrorKind::InvalidMapEntry { .. } => None,
             DescriptorErrorKind::EmptyEnum { .. } => None,
             DescriptorErrorKind::InvalidProto3EnumDefault { .. } => None,
             DescriptorErrorKind::DuplicateEnumNumber { .. } => Some(Box::new(
@@ -724,6 +739,9 @@ impl miette::Diagnostic for DescriptorErrorKind {
             DescriptorErrorKind::InvalidFieldDefault { found, .. } => {
                 spans.extend(found.to_span());
             }
+            DescriptorErrorKind::InvalidMapEntry { found, .. } => {
+                spans.extend(found.to_span());
+            }
             DescriptorErrorKind::EmptyEnum { found } => {
                 spans.extend(found.to_span());
             }
-- 
2.43.0


From 97684e6be8771b5210f994456881fc1fa5473495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:42 +0000
Subject: [PATCH 08/28] fix: require lists and maps for repeated fields in
 is_valid_for_field

---
 prost-reflect/src/dynamic/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prost-reflect/src/dynamic/mod.rs b/prost-reflect/src/dynamic/mod.rs
index 57a9262..247c92a 100644
--- a/prost-reflect/src/dynamic/mod.rs
+++ b/prost-reflect/src/dynamic/mod.rs
@@ -648,7 +648,7 @@ impl Value {
                     key.is_valid(&key_desc) && value.is_valid_for_field(&value_desc)
                 })
             }
-            (value, kind) => value.is_valid(&kind),
+            (value, kind) => !field_desc.is_list() && !field_desc.is_map() && value.is_valid(&kind),
         }
     }
 
@@ -667,7 +667,9 @@ impl Value {
                     key.is_valid(&key_desc) && value.is_valid_for_field(&value_desc)
                 })
             }
-            (value, kind) => value.is_valid(&kind),
+            (value, kind) => {
+                !extension_desc.is_list() && !extension_desc.is_map() && value.is_valid(&kind)
+            }
         }
     }
 
-- 
2.43.0


From bb486c6e773895277d750a3d3c22cd554542ef45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:48 +0000
Subject: [PATCH 09/28] fix: serialize non-finite FloatValue and DoubleValue as
 strings

---
 prost-reflect/src/dynamic/serde/ser/mod.rs | 58 +++++++++++++---------
 prost-reflect/src/dynamic/serde/ser/wkt.rs |  6 +--
 2 files changed, 37 insertions(+), 27 deletions(-)

diff --git a/prost-reflect/src/dynamic/serde/ser/mod.rs b/prost-reflect/src/dynamic/serde/ser/mod.rs
index 7da55a2..9ada96e 100644
--- a/prost-reflect/src/dynamic/serde/ser/mod.rs
+++ b/prost-reflect/src/dynamic/serde/ser/mod.rs
@@ -117,30 +117,8 @@ impl<'a> Serialize for SerializeWrapper<'a, ValueAndKind<'a>> {
                     serializer.serialize_u64(*value)
                 }
             }
-            Value::F32(value) => {
-                if value.is_finite() {
-                    serializer.serialize_f32(*value)
-                } else if *value == f32::INFINITY {
-                    serializer.serialize_str("Infinity")
-                } else if *value == f32::NEG_INFINITY {
-                    serializer.serialize_str("-Infinity")
-                } else {
-                    debug_assert!(value.is_nan());
-                    serializer.serialize_str("NaN")
-                }
-            }
-            Value::F64(value) => {
-                if value.is_finite() {
-                    serializer.serialize_f64(*value)
-                } else if *value == f64::INFINITY {
-                    serializer.serialize_str("Infinity")
-                } else if *value == f64::NEG_INFINITY {
-                    serializer.serialize_str("-Infinity")
-                } else {
-                    debug_assert!(value.is_nan());
-                    serializer.serialize_str("NaN")
-                }
-            }
+            Value::F32(value) => serialize_f32(*value, serializer),
+            Value::F64(value) => serialize_f64(*value, serializer),
             Value::String(value) => serializer.serialize_str(value),
             Value::Bytes(value) => {
                 serializer.collect_str(&Base64Display::new(value, &BASE64_STANDARD))
@@ -211,6 +189,38 @@ impl<'a> Serialize for SerializeWrapper<'a, ValueAndKind<'a>> {
     }
 }
 
+fn serialize_f32<S>(value: f32, serializer: S) -> Result<S::Ok, S::Error>
+where
+    S: Serializer,
+{
+    if value.is_finite() {
+        serializer.serialize_f32(value)
+    } else if value == f32::INFINITY {
+        serializer.serialize_str("Infinity")
+    } else if value == f32::NEG_INFINITY {
+        serializer.serialize_str("-Infinity")
+    } else {
+        debug_assert!(value.is_nan());
+        serializer.serialize_str("NaN")
+    }
+}
+
+fn serialize_f64<S>(value: f64, serializer: S) -> Result<S::Ok, S::Error>
+where
+    S: Serializer,
+{
+    if value.is_finite() {
+        serializer.serialize_f64(value)
+    } else if value == f64::INFINITY {
+        serializer.serialize_str("Infinity")
+    } else if value == f64::NEG_INFINITY {
+        serializer.serialize_str("-Infinity")
+    } else {
+        debug_assert!(value.is_nan());
+        serializer.serialize_str("NaN")
+    }
+}
+
 impl Serialize for SerializeWrapper<'_, MapKey> {
     fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
     where
diff --git a/prost-reflect/src/dynamic/serde/ser/wkt.rs b/prost-reflect/src/dynamic/serde/ser/wkt.rs
index 423ef26..64ecdd2 100644
--- a/prost-reflect/src/dynamic/serde/ser/wkt.rs
+++ b/prost-reflect/src/dynamic/serde/ser/wkt.rs
@@ -14,7 +14,7 @@ use crate::{
     ReflectMessage,
 };
 
-use super::{serialize_dynamic_message_fields, SerializeWrapper};
+use super::{serialize_dynamic_message_fields, serialize_f32, serialize_f64, SerializeWrapper};
 
 #[allow(type_alias_bounds)]
 type WellKnownTypeSerializer<S: Serializer> =
@@ -131,7 +131,7 @@ where
 {
     let raw: f32 = msg.transcode_to().map_err(decode_to_ser_err)?;
 
-    serializer.serialize_f32(raw)
+    serialize_f32(raw, serializer)
 }
 
 fn serialize_double<S>(
@@ -144,7 +144,7 @@ where
 {
     let raw: f64 = msg.transcode_to().map_err(decode_to_ser_err)?;
 
-    serializer.serialize_f64(raw)
+    serialize_f64(raw, serializer)
 }
 
 fn serialize_int32<S>(
-- 
2.43.0


From 5242c9e5c2f873cca4ab8e60a15e4522948d6e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:49 +0000
Subject: [PATCH 10/28] fix: reject floats just above the range of 64-bit
 integers in JSON

---
 prost-reflect/src/dynamic/serde/de/kind.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prost-reflect/src/dynamic/serde/de/kind.rs b/prost-reflect/src/dynamic/serde/de/kind.rs
index 4fc2fb5..de9c5f4 100644
--- a/prost-reflect/src/dynamic/serde/de/kind.rs
+++ b/prost-reflect/src/dynamic/serde/de/kind.rs
@@ -399,7 +399,7 @@ impl Visitor<'_> for Int64Visitor {
             return Err(Error::custom("expected integer value"));
         }
 
-        if v < (i64::MIN as f64) || v > (i64::MAX as f64) {
+        if v < (i64::MIN as f64) || v >= (i64::MAX as f64) {
             return Err(Error::custom("float value out of range"));
         }
 
@@ -446,7 +446,7 @@ impl Visitor<'_> for Uint64Visitor {
             return Err(Error::custom("expected integer value"));
         }
 
-        if v < (u64::MIN as f64) || v > (u64::MAX as f64) {
+        if v < (u64::MIN as f64) || v >= (u64::MAX as f64) {
             return Err(Error::custom("float value out of range"));
         }
 
-- 
2.43.0


From c23849d0311d9084efc8070155aac3d1ed2b2daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 11/28] fix: reject out of range float strings in JSON

---
 prost-reflect/src/dynamic/serde/de/kind.rs | 30 +++++++++++++---------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/prost-reflect/src/dynamic/serde/de/kind.rs b/prost-reflect/src/dynamic/serde/de/kind.rs
index de9c5f4..bacd5df 100644
--- a/prost-reflect/src/dynamic/serde/de/kind.rs
+++ b/prost-reflect/src/dynamic/serde/de/kind.rs
@@ -183,12 +183,15 @@ impl Visitor<'_> for DoubleVisitor {
     where
         E: Error,
     {
-        match f64::from_str(v) {
-            Ok(value) => Ok(value),
-            Err(_) if v == "Infinity" => Ok(f64::INFINITY),
-            Err(_) if v == "-Infinity" => Ok(f64::NEG_INFINITY),
-            Err(_) if v == "NaN" => Ok(f64::NAN),
-            Err(err) => Err(Error::custom(err)),
+        match v {
+            "Infinity" => Ok(f64::INFINITY),
+            "-Infinity" => Ok(f64::NEG_INFINITY),
+            "NaN" => Ok(f64::NAN),
+            _ => match f64::from_str(v) {
+                Ok(value) if value.is_finite() => Ok(value),
+                Ok(_) => Err(Error::custom("float value out of range")),
+                Err(err) => Err(Error::custom(err)),
+            },
         }
     }
 }
@@ -240,12 +243,15 @@ impl Visitor<'_> for FloatVisitor {
     where
         E: Error,
     {
-        match f32::from_str(v) {
-            Ok(value) => Ok(value),
-            Err(_) if v == "Infinity" => Ok(f32::INFINITY),
-            Err(_) if v == "-Infinity" => Ok(f32::NEG_INFINITY),
-            Err(_) if v == "NaN" => Ok(f32::NAN),
-            Err(err) => Err(Error::custom(err)),
+        match v {
+            "Infinity" => Ok(f32::INFINITY),
+            "-Infinity" => Ok(f32::NEG_INFINITY),
+            "NaN" => Ok(f32::NAN),
+            _ => match f32::from_str(v) {
+                Ok(value) if value.is_finite() => Ok(value),
+                Ok(_) => Err(Error::custom("float value out of range")),
+                Err(err) => Err(Error::custom(err)),
+            },
         }
     }
 }
-- 
2.43.0


From 77c983e52c54331c8ad1cf831f57570a6db1ada1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:52 +0000
Subject: [PATCH 12/28] fix: reject durations with mixed signs in JSON

---
 prost-reflect/src/dynamic/serde/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/prost-reflect/src/dynamic/serde/mod.rs b/prost-reflect/src/dynamic/serde/mod.rs
index 8139977..be096c8 100644
--- a/prost-reflect/src/dynamic/serde/mod.rs
+++ b/prost-reflect/src/dynamic/serde/mod.rs
@@ -290,6 +290,11 @@ fn check_duration(duration: &prost_types::Duration) -> Result<(), &'static str>
         || duration.nanos.unsigned_abs() > MAX_DURATION_NANOS
     {
         Err("duration out of range")
+    } else if duration.seconds != 0
+        && duration.nanos != 0
+        && (duration.seconds < 0) != (duration.nanos < 0)
+    {
+        Err("duration seconds and nanos must have the same sign")
     } else {
         Ok(())
     }
-- 
2.43.0


From c9743b1b85fb779702a65c55e7da4c953312dba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 13/28] fix: reject timestamps with out of range nanos in JSON

---
 prost-reflect/src/dynamic/serde/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/prost-reflect/src/dynamic/serde/mod.rs b/prost-reflect/src/dynamic/serde/mod.rs
index be096c8..3c1df8b 100644
--- a/prost-reflect/src/dynamic/serde/mod.rs
+++ b/prost-reflect/src/dynamic/serde/mod.rs
@@ -261,6 +261,7 @@ const MAX_DURATION_NANOS: u32 = 999_999_999;
 
 const MIN_TIMESTAMP_SECONDS: i64 = -62135596800;
 const MAX_TIMESTAMP_SECONDS: i64 = 253402300799;
+const MAX_TIMESTAMP_NANOS: i32 = 999_999_999;
 
 fn is_well_known_type(full_name: &str) -> bool {
     matches!(
@@ -301,7 +302,11 @@ fn check_duration(duration: &prost_types::Duration) -> Result<(), &'static str>
 }
 
 fn check_timestamp(timestamp: &prost_types::Timestamp) -> Result<(), &'static str> {
-    if timestamp.seconds < MIN_TIMESTAMP_SECONDS || MAX_TIMESTAMP_SECONDS < timestamp.seconds {
+    if timestamp.seconds < MIN_TIMESTAMP_SECONDS
+        || MAX_TIMESTAMP_SECONDS < timestamp.seconds
+        || timestamp.nanos < 0
+        || timestamp.nanos > MAX_TIMESTAMP_NANOS
+    {
         Err("timestamp out of range")
     } else {
         Ok(())
-- 
2.43.0


From 56b7d88a8a02c30dfa2fdc9f014b157c33691024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:56 +0000
Subject: [PATCH 14/28] fix: reject field mask paths which do not round trip
 through JSON

---
 prost-reflect/src/dynamic/serde/case.rs    | 4 ++++
 prost-reflect/src/dynamic/serde/ser/wkt.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/prost-reflect/src/dynamic/serde/case.rs b/prost-reflect/src/dynamic/serde/case.rs
index 03bb7f0..c97147b 100644
--- a/prost-reflect/src/dynamic/serde/case.rs
+++ b/prost-reflect/src/dynamic/serde/case.rs
@@ -22,6 +22,10 @@ pub(crate) fn snake_case_to_camel_case(dst: &mut String, src: &str) -> Result<()
         }
     }
 
+    if ucase_next {
+        return Err(());
+    }
+
     Ok(())
 }
 
diff --git a/prost-reflect/src/dynamic/serde/ser/wkt.rs b/prost-reflect/src/dynamic/serde/ser/wkt.rs
index 64ecdd2..98a3f38 100644
--- a/prost-reflect/src/dynamic/serde/ser/wkt.rs
+++ b/prost-reflect/src/dynamic/serde/ser/wkt.rs
@@ -258,6 +258,10 @@ where
 
     let mut result = String::new();
     for path in raw.paths {
+        if path.is_empty() || path.contains(',') {
+            return Err(Error::custom("cannot represent field mask path in JSON"));
+        }
+
         if !result.is_empty() {
             result.push(',');
         }
-- 
2.43.0


From 6eb0195e4d7460d2dfe3100b2fdd6a4049a43050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:30 +0000
Subject: [PATCH 15/28] fix: only expand Any messages with type URLs which can
 be parsed in text format

---
 prost-reflect/src/dynamic/text_format/format.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/prost-reflect/src/dynamic/text_format/format.rs b/prost-reflect/src/dynamic/text_format/format.rs
index 0f168f9..bbd01a8 100644
--- a/prost-reflect/src/dynamic/text_format/format.rs
+++ b/prost-reflect/src/dynamic/text_format/format.rs
@@ -304,6 +304,16 @@ fn as_any(message: &DynamicMessage) -> Option<(String, DynamicMessage)> {
     let any = message.transcode_to::<prost_types::Any>().ok()?;
     let message_name = get_type_url_message_name(&any.type_url).ok()?;
 
+    // Other type URLs are valid, but can't be parsed back from the expanded form
+    let domain = any.type_url.strip_suffix(message_name)?.strip_suffix('/')?;
+    if !domain
+        .split('.')
+        .chain(message_name.split('.'))
+        .all(is_ident)
+    {
+        return None;
+    }
+
     let desc = message
         .desc
         .parent_pool()
@@ -312,6 +322,12 @@ fn as_any(message: &DynamicMessage) -> Option<(String, DynamicMessage)> {
     Some((any.type_url, body))
 }
 
+fn is_ident(s: &str) -> bool {
+    !s.is_empty()
+        && !s.starts_with(|ch: char| ch.is_ascii_digit())
+        && s.chars().all(|ch| ch.is_ascii_alphanumeric() || ch == '_')
+}
+
 #[cfg(test)]
 #[cfg(feature = "text-format")]
 mod tests {
-- 
2.43.0


From fc46dfddea4a429ea5014143f2b8b0dc4bcb3c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:20 +0000
Subject: [PATCH 16/28] fix: check the wire type of map fields when decoding

---
 prost-reflect/src/dynamic/message.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prost-reflect/src/dynamic/message.rs b/prost-reflect/src/dynamic/message.rs
index 239c4c5..e543811 100644
--- a/prost-reflect/src/dynamic/message.rs
+++ b/prost-reflect/src/dynamic/message.rs
@@ -351,6 +351,8 @@ impl Value {
                 }
             }
             (Value::Map(values), Kind::Message(map_entry)) if field_desc.is_map() => {
+                prost::encoding::check_wire_type(WireType::LengthDelimited, wire_type)?;
+
                 let key_desc = map_entry.get_field(MAP_ENTRY_KEY_NUMBER).unwrap();
                 let value_desc = map_entry.get_field(MAP_ENTRY_VALUE_NUMBER).unwrap();
 
-- 
2.43.0


From 2f0c0befffba3668813086bec90ed72fdf8afd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:23 +0000
Subject: [PATCH 17/28] fix: formatting descriptors and messages of recursive
 types with Debug overflowed the stack

---
 prost-reflect/src/dynamic/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/prost-reflect/src/dynamic/mod.rs b/prost-reflect/src/dynamic/mod.rs
index 247c92a..afe3ac9 100644
--- a/prost-reflect/src/dynamic/mod.rs
+++ b/prost-reflect/src/dynamic/mod.rs
@@ -36,7 +36,7 @@ use crate::{
 ///
 /// It wraps a [`MessageDescriptor`] and the [`Value`] for each field of the message, and implements
 /// [`Message`][`prost::Message`].
-#[derive(Debug, Clone, PartialEq)]
+#[derive(Clone, PartialEq)]
 pub struct DynamicMessage {
     desc: MessageDescriptor,
     fields: DynamicMessageFieldSet,
@@ -582,6 +582,17 @@ impl DynamicMessage {
     }
 }
 
+impl fmt::Debug for DynamicMessage {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        // Don't format the full descriptor. It includes the default value of each field, so formatting
+        // would never terminate for recursive message types.
+        f.debug_struct("DynamicMessage")
+            .field("desc", &self.desc.full_name())
+            .field("fields", &self.fields)
+            .finish()
+    }
+}
+
 impl ReflectMessage for DynamicMessage {
     fn descriptor(&self) -> MessageDescriptor {
         self.desc.clone()
-- 
2.43.0


From e73734f4d2cc497eaf8ec2a8e6821e185d7210b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:43 +0000
Subject: [PATCH 18/28] fix: null given for a repeated google.protobuf.Value
 field in JSON caused a panic

---
 prost-reflect/src/dynamic/serde/de/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/prost-reflect/src/dynamic/serde/de/mod.rs b/prost-reflect/src/dynamic/serde/de/mod.rs
index 3c16423..089c3ba 100644
--- a/prost-reflect/src/dynamic/serde/de/mod.rs
+++ b/prost-reflect/src/dynamic/serde/de/mod.rs
@@ -169,6 +169,9 @@ where
     where
         E: Error,
     {
+        if self.0.is_list() {
+            return Ok(None);
+        }
         match self.0.kind() {
             Kind::Message(message_desc) if message_desc.full_name() == "google.protobuf.Value" => {
                 make_message(
-- 
2.43.0


From 9af567f8b011acdf6d44ab6159df4ead248bb4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:05 +0000
Subject: [PATCH 19/28] fix: JSON number that rounds to f32::MAX was refused
 for a float field

---
 prost-reflect/src/dynamic/serde/de/kind.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prost-reflect/src/dynamic/serde/de/kind.rs b/prost-reflect/src/dynamic/serde/de/kind.rs
index bacd5df..2b80595 100644
--- a/prost-reflect/src/dynamic/serde/de/kind.rs
+++ b/prost-reflect/src/dynamic/serde/de/kind.rs
@@ -216,10 +216,12 @@ impl Visitor<'_> for FloatVisitor {
     where
         E: Error,
     {
-        if v < (f32::MIN as f64) || v > (f32::MAX as f64) {
+        // Values slightly above `f32::MAX` still round to it, e.g. its own shortest decimal form.
+        let value = v as f32;
+        if value.is_infinite() {
             Err(Error::custom("float value out of range"))
         } else {
-            Ok(v as f32)
+            Ok(value)
         }
     }
 
-- 
2.43.0


From 040f94dda6022fe194ea18c7ec5896bb0f829c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:02 +0000
Subject: [PATCH 20/28] fix: JSON form of a float that reads back as its
 neighbour

---
 prost-reflect/src/dynamic/serde/ser/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/prost-reflect/src/dynamic/serde/ser/mod.rs b/prost-reflect/src/dynamic/serde/ser/mod.rs
index 9ada96e..8198984 100644
--- a/prost-reflect/src/dynamic/serde/ser/mod.rs
+++ b/prost-reflect/src/dynamic/serde/ser/mod.rs
@@ -194,7 +194,12 @@ where
     S: Serializer,
 {
     if value.is_finite() {
-        serializer.serialize_f32(value)
+        // JSON numbers are read as doubles. The shortest form of the float may be so close to the
+        // middle of two floats that the double rounds to the other one.
+        match value.to_string().parse::<f64>() {
+            Ok(double) if double as f32 != value => serializer.serialize_f64(value.into()),
+            _ => serializer.serialize_f32(value),
+        }
     } else if value == f32::INFINITY {
         serializer.serialize_str("Infinity")
     } else if value == f32::NEG_INFINITY {
-- 
2.43.0


From 1510f2f5a1624ab11a7edec08b56447cef4ac603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:24 +0000
Subject: [PATCH 21/28] fix: float in text format was rounded twice

---
 .../src/dynamic/text_format/parse/mod.rs      | 26 +++++++++++++------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/prost-reflect/src/dynamic/text_format/parse/mod.rs b/prost-reflect/src/dynamic/text_format/parse/mod.rs
index c15153e..fef9258 100644
--- a/prost-reflect/src/dynamic/text_format/parse/mod.rs
+++ b/prost-reflect/src/dynamic/text_format/parse/mod.rs
@@ -1,7 +1,9 @@
 mod error;
 mod lex;
 
-use std::{borrow::Cow, convert::TryFrom, iter::once};
+use std::{
+    borrow::Cow, convert::TryFrom, iter::once, num::ParseFloatError, ops::Neg, str::FromStr,
+};
 
 use logos::{Lexer, Logos, Span};
 use prost::Message;
@@ -273,11 +275,11 @@ impl<'a> Parser<'a> {
     fn parse_value(&mut self, kind: &Kind) -> Result<(Value, Span), ParseErrorKind> {
         match kind {
             Kind::Float => {
-                let (value, span) = self.parse_float()?;
-                Ok((Value::F32(value as f32), span))
+                let (value, span) = self.parse_float::<f32>()?;
+                Ok((Value::F32(value), span))
             }
             Kind::Double => {
-                let (value, span) = self.parse_float()?;
+                let (value, span) = self.parse_float::<f64>()?;
                 Ok((Value::F64(value), span))
             }
             Kind::Int32 | Kind::Sint32 | Kind::Sfixed32 => {
@@ -323,7 +325,10 @@ impl<'a> Parser<'a> {
         }
     }
 
-    fn parse_float(&mut self) -> Result<(f64, Span), ParseErrorKind> {
+    fn parse_float<T>(&mut self) -> Result<(T, Span), ParseErrorKind>
+    where
+        T: From<f32> + Neg<Output = T> + FromStr<Err = ParseFloatError>,
+    {
         let (negative, start) = match self.peek()? {
             Some((Token::Minus, _)) => (true, self.bump()),
             Some((_, span)) => (false, span),
@@ -331,17 +336,22 @@ impl<'a> Parser<'a> {
         };
 
         let (value, end) = match self.peek()? {
-            Some((Token::FloatLiteral(value), _)) => (value, self.bump()),
+            Some((Token::FloatLiteral(_), _)) => {
+                // Parse the literal again, going through `f64` would round an `f32` twice.
+                let span = self.bump();
+                let literal = self.lexer.source()[span.clone()].trim_end_matches(['f', 'F']);
+                (literal.parse::<T>().unwrap(), span)
+            }
             Some((Token::IntLiteral(Int { value, radix: 10 }), _)) => {
                 (value.parse().unwrap(), self.bump())
             }
             Some((Token::Ident(value), _))
                 if value.eq_ignore_ascii_case("inf") || value.eq_ignore_ascii_case("infinity") =>
             {
-                (f64::INFINITY, self.bump())
+                (f32::INFINITY.into(), self.bump())
             }
             Some((Token::Ident(value), _)) if value.eq_ignore_ascii_case("nan") => {
-                (f64::NAN, self.bump())
+                (f32::NAN.into(), self.bump())
             }
             _ => self.unexpected_token("a number")?,
         };
-- 
2.43.0


From 22ca602ec24c40c5b29850591bb0bea194fedd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:59 +0000
Subject: [PATCH 22/28] fix: list of messages without colon was refused in text
 format

---
 .../src/dynamic/text_format/parse/mod.rs       | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/prost-reflect/src/dynamic/text_format/parse/mod.rs b/prost-reflect/src/dynamic/text_format/parse/mod.rs
index fef9258..2483768 100644
--- a/prost-reflect/src/dynamic/text_format/parse/mod.rs
+++ b/prost-reflect/src/dynamic/text_format/parse/mod.rs
@@ -71,11 +71,12 @@ impl<'a> Parser<'a> {
     fn parse_field(&mut self, message: &mut DynamicMessage) -> Result<(), ParseErrorKind> {
         let (name, span) = self.parse_field_name()?;
 
-        match self.peek()? {
+        let has_colon = match self.peek()? {
             Some((Token::Colon, _)) => {
                 self.bump();
+                true
             }
-            Some((Token::LeftBrace | Token::LeftAngleBracket, _)) => (),
+            Some((Token::LeftBrace | Token::LeftAngleBracket | Token::LeftBracket, _)) => false,
             _ => self.unexpected_token("':' or a message value")?,
         };
 
@@ -89,7 +90,7 @@ impl<'a> Parser<'a> {
                     }
                 })?;
 
-                self.parse_field_value(message, &field)?;
+                self.parse_field_value(message, &field, has_colon)?;
             }
             FieldName::Extension(extension_name) => {
                 let extension = message
@@ -101,7 +102,7 @@ impl<'a> Parser<'a> {
                         span,
                     })?;
 
-                self.parse_field_value(message, &extension)?;
+                self.parse_field_value(message, &extension, has_colon)?;
             }
             FieldName::Any(domain, message_name) => {
                 let value_message = match message
@@ -173,7 +174,16 @@ impl<'a> Parser<'a> {
         &mut self,
         message: &mut DynamicMessage,
         field: &impl FieldDescriptorLike,
+        has_colon: bool,
     ) -> Result<(), ParseErrorKind> {
+        // The colon may be omitted before a list of messages, but not before other lists
+        if !has_colon
+            && field.kind().as_message().is_none()
+            && matches!(self.peek()?, Some((Token::LeftBracket, _)))
+        {
+            self.unexpected_token("':'")?;
+        }
+
         if field.is_list() {
             let (value, _) = self.parse_repeated_value(&field.kind())?;
             let result = message.fields.get_mut(field).as_list_mut().unwrap();
-- 
2.43.0


From 0309def5d6d3b34c0e343ade6442d9b0c5f39a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:30 +0000
Subject: [PATCH 23/28] fix: float literal running into an identifier was
 accepted in text format

---
 .../src/dynamic/text_format/parse/lex.rs      | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/prost-reflect/src/dynamic/text_format/parse/lex.rs b/prost-reflect/src/dynamic/text_format/parse/lex.rs
index 91d2b45..eb56c8a 100644
--- a/prost-reflect/src/dynamic/text_format/parse/lex.rs
+++ b/prost-reflect/src/dynamic/text_format/parse/lex.rs
@@ -1,6 +1,6 @@
 use std::{ascii, convert::TryInto, fmt};
 
-use logos::{Lexer, Logos};
+use logos::{Lexer, Logos, Span};
 
 use super::error::ParseErrorKind;
 
@@ -101,7 +101,15 @@ impl fmt::Display for Token<'_> {
 fn int<'a>(lex: &mut Lexer<'a, Token<'a>>, radix: u32, prefix_len: usize) -> Result<Int<'a>, ()> {
     debug_assert!(lex.slice().len() > prefix_len);
     let span = lex.span().start + prefix_len..lex.span().end;
+    check_no_ident_follows(lex, span.clone())?;
 
+    Ok(Int {
+        value: &lex.source()[span],
+        radix,
+    })
+}
+
+fn check_no_ident_follows<'a>(lex: &mut Lexer<'a, Token<'a>>, span: Span) -> Result<(), ()> {
     if matches!(lex.remainder().chars().next(), Some(ch) if ch.is_ascii_alphabetic() || ch == '_') {
         let mut end = span.end + 1;
         while end < lex.source().len() && lex.source().as_bytes()[end].is_ascii_alphabetic() {
@@ -113,13 +121,12 @@ fn int<'a>(lex: &mut Lexer<'a, Token<'a>>, radix: u32, prefix_len: usize) -> Res
         return Err(());
     }
 
-    Ok(Int {
-        value: &lex.source()[span],
-        radix,
-    })
+    Ok(())
 }
 
-fn float<'a>(lex: &mut Lexer<'a, Token<'a>>) -> f64 {
+fn float<'a>(lex: &mut Lexer<'a, Token<'a>>) -> Result<f64, ()> {
+    check_no_ident_follows(lex, lex.span())?;
+
     let start = lex.span().start;
     let last = lex.span().end - 1;
     let s = match lex.source().as_bytes()[last] {
@@ -127,7 +134,7 @@ fn float<'a>(lex: &mut Lexer<'a, Token<'a>>) -> f64 {
         _ => lex.slice(),
     };
 
-    s.parse().expect("failed to parse float")
+    Ok(s.parse().expect("failed to parse float"))
 }
 
 fn string<'a>(lex: &mut Lexer<'a, Token<'a>>) -> Result<Vec<u8>, ()> {
-- 
2.43.0


From 213178af91c2cd241a12ccd973b685056b2cd87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:47 +0000
Subject: [PATCH 24/28] fix: decimal literal with a leading zero was accepted
 in text format

---
 prost-reflect/src/dynamic/text_format/parse/lex.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/prost-reflect/src/dynamic/text_format/parse/lex.rs b/prost-reflect/src/dynamic/text_format/parse/lex.rs
index eb56c8a..1cf4ddd 100644
--- a/prost-reflect/src/dynamic/text_format/parse/lex.rs
+++ b/prost-reflect/src/dynamic/text_format/parse/lex.rs
@@ -103,6 +103,11 @@ fn int<'a>(lex: &mut Lexer<'a, Token<'a>>, radix: u32, prefix_len: usize) -> Res
     let span = lex.span().start + prefix_len..lex.span().end;
     check_no_ident_follows(lex, span.clone())?;
 
+    // A literal with a leading zero is octal, so `08` is not a number
+    if radix == 10 && span.len() > 1 && lex.slice().starts_with('0') {
+        return Err(());
+    }
+
     Ok(Int {
         value: &lex.source()[span],
         radix,
-- 
2.43.0


From 2340457f04dd6c9a0d7e243c5e40bb41cc333fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 25/28] fix: packed option in uninterpreted form was ignored by
 is_packed

---
 prost-reflect/src/descriptor/build/resolve.rs | 30 ++++++++++++-------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index 88eca61..b943954 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -5,7 +5,9 @@ use prost::bytes::Bytes;
 use crate::{
     descriptor::{
         build::{
-            join_path, resolve_name, to_json_name,
+            join_path,
+            options::option_to_bool,
+            resolve_name, to_json_name,
             visit::{visit, Visitor},
             DescriptorPoolOffsets, ResolveNameFilter,
         },
@@ -178,11 +180,7 @@ impl Visitor for ResolveVisitor<'_> {
 
         let is_packed = cardinality == Cardinality::Repeated
             && kind.is_some_and(|k| k.is_packable())
-            && (field
-                .options
-                .as_ref()
-                .and_then(|o| o.value.packed)
-                .unwrap_or(syntax == Syntax::Proto3));
+            && packed_option(field).unwrap_or(syntax == Syntax::Proto3);
 
         let supports_presence = field.proto3_optional()
             || field.oneof_index.is_some()
@@ -450,11 +448,7 @@ impl Visitor for ResolveVisitor<'_> {
 
         let is_packed = cardinality == Cardinality::Repeated
             && kind.is_some_and(|k| k.is_packable())
-            && (extension
-                .options
-                .as_ref()
-                .and_then(|o| o.value.packed)
-                .unwrap_or(syntax == Syntax::Proto3));
+            && packed_option(extension).unwrap_or(syntax == Syntax::Proto3);
 
         let default = kind.and_then(|kind| {
             self.parse_field_default_value(kind, extension.default_value.as_deref(), file, path)
@@ -827,6 +821,20 @@ impl ResolveVisitor<'_> {
     }
 }
 
+/// The value of the `packed` option, which may not be interpreted yet.
+fn packed_option(field: &FieldDescriptorProto) -> Option<bool> {
+    let options = &field.options.as_ref()?.value;
+    options.packed.or_else(|| {
+        options
+            .uninterpreted_option
+            .iter()
+            .find(|u| {
+                u.name.len() == 1 && u.name[0].name_part == "packed" && !u.name[0].is_extension
+            })
+            .and_then(|u| option_to_bool(u).ok())
+    })
+}
+
 fn is_valid_map_key(kind: KindIndex) -> bool {
     match kind {
         KindIndex::Int32
-- 
2.43.0


From 16557edb486898f2ce99594412ad1b0d7ad530f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:54 +0000
Subject: [PATCH 26/28] fix: panic when listing definitions of a file whose
 names start with a dot

---
 prost-reflect/src/descriptor/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prost-reflect/src/descriptor/mod.rs b/prost-reflect/src/descriptor/mod.rs
index d14c9b8..0ddfb7e 100644
--- a/prost-reflect/src/descriptor/mod.rs
+++ b/prost-reflect/src/descriptor/mod.rs
@@ -408,8 +408,9 @@ impl DefinitionKind {
 
 impl DescriptorPoolInner {
     fn get_by_name(&self, name: &str) -> Option<&Definition> {
-        let name = name.strip_prefix('.').unwrap_or(name);
-        self.names.get(name)
+        self.names
+            .get(name)
+            .or_else(|| self.names.get(name.strip_prefix('.')?))
     }
 }
 
-- 
2.43.0


From ee161e10cfa025ee6583f7b39542cc325b376c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:29 +0000
Subject: [PATCH 27/28] fix: panic when a source form option gives bytes the
 fixed option types cannot hold

---
 prost-reflect/src/descriptor/build/options.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/options.rs b/prost-reflect/src/descriptor/build/options.rs
index 1084a49..d36e5cc 100644
--- a/prost-reflect/src/descriptor/build/options.rs
+++ b/prost-reflect/src/descriptor/build/options.rs
@@ -305,7 +305,10 @@ impl OptionsVisitor<'_> {
         scope: &str,
         file: FileIndex,
         path: &[i32],
-    ) -> Vec<u8> {
+    ) -> Vec<u8>
+    where
+        T: Message + Default,
+    {
         let desc = self.pool.get_message_by_name(desc_name).unwrap_or_else(|| {
             DescriptorPool::global()
                 .get_message_by_name(desc_name)
@@ -335,7 +338,12 @@ impl OptionsVisitor<'_> {
 
         message.clear_field_by_number(tag::UNINTERPRETED_OPTION as u32);
 
-        message.encode_to_vec()
+        let encoded = message.encode_to_vec();
+        if let Err(err) = Options::<T>::decode(encoded.as_slice()) {
+            self.errors
+                .push(DescriptorErrorKind::DecodeFileDescriptorSet { err });
+        }
+        encoded
     }
 
     #[allow(clippy::result_large_err)]
-- 
2.43.0


From e12de69079496e4da83b47cf244f5acb38416fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:49 +0000
Subject: [PATCH 28/28] fix: an enum value in a reserved range was reported at
 the place of its options instead of its number

---
 prost-reflect/src/descriptor/build/resolve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index b943954..5c9f653 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -599,7 +599,7 @@ impl ResolveVisitor<'_> {
                             &self.pool.files,
                             "defined here",
                             file,
-                            join_path(path, &[tag::field::NUMBER]),
+                            join_path(path, &[tag::enum_value::NUMBER]),
                         ),
                     });
             }
-- 
2.43.0

