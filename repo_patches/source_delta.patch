From e39d598604f64ebe9f5bdf37e733116ed7030a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 01/31] fix: count the byte length prefix, not the element
 count, in collection sizes

---
 crates/mabo/src/buf/size.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/crates/mabo/src/buf/size.rs b/crates/mabo/src/buf/size.rs
index c697632..e77fa6b 100644
--- a/crates/mabo/src/buf/size.rs
+++ b/crates/mabo/src/buf/size.rs
@@ -73,7 +73,8 @@ pub fn size_vec<T, S>(vec: &[T], size: S) -> usize
 where
     S: Fn(&T) -> usize,
 {
-    size_u64(vec.len() as u64) + vec.iter().map(size).sum::<usize>()
+    let content = vec.iter().map(size).sum::<usize>();
+    size_u64(content as u64) + content
 }
 
 /// Calculate the size of a Mabo `hash_map<K, V>` hash map value.
@@ -82,11 +83,11 @@ where
     SK: Fn(&K) -> usize,
     SV: Fn(&V) -> usize,
 {
-    size_u64(map.len() as u64)
-        + map
-            .iter()
-            .map(|(key, value)| size_key(key) + size_value(value))
-            .sum::<usize>()
+    let content = map
+        .iter()
+        .map(|(key, value)| size_key(key) + size_value(value))
+        .sum::<usize>();
+    size_u64(content as u64) + content
 }
 
 /// Calculate the size of a Mabo `hash_set<T>` hash set value.
@@ -94,7 +95,8 @@ pub fn size_hash_set<T, S>(set: &HashSet<T>, size: S) -> usize
 where
     S: Fn(&T) -> usize,
 {
-    size_u64(set.len() as u64) + set.iter().map(size).sum::<usize>()
+    let content = set.iter().map(size).sum::<usize>();
+    size_u64(content as u64) + content
 }
 
 /// Calculate the size of a Mabo `option<T>` option value.
@@ -110,7 +112,8 @@ pub fn size_array<const N: usize, T, S>(array: &[T; N], size: S) -> usize
 where
     S: Fn(&T) -> usize,
 {
-    size_u64(N as u64) + array.iter().map(size).sum::<usize>()
+    let content = array.iter().map(size).sum::<usize>();
+    size_u64(content as u64) + content
 }
 
 /// Calculate the size of a Mabo field identifier.
-- 
2.43.0


From 55531e67009b9cca603cbae07651414c77579b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:44 +0000
Subject: [PATCH 02/31] fix: return an error instead of panicking on arrays
 with too few elements

---
 crates/mabo/src/buf/decode.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/crates/mabo/src/buf/decode.rs b/crates/mabo/src/buf/decode.rs
index ee6f945..fcfeaf3 100644
--- a/crates/mabo/src/buf/decode.rs
+++ b/crates/mabo/src/buf/decode.rs
@@ -260,8 +260,7 @@ where
 /// # Errors
 ///
 /// Will return `Err` if the buffer does not have enough remaining data to read the value, or the
-/// `T` type fails to decode.
-#[expect(clippy::missing_panics_doc)]
+/// `T` type fails to decode or there are fewer than `N` elements.
 pub fn decode_array<const N: usize, R, T, D>(r: &mut R, decode: D) -> Result<[T; N]>
 where
     R: Buf,
@@ -281,9 +280,7 @@ where
     // skip any remaining values, in case the old array definition was larger.
     r.advance(r.remaining());
 
-    // SAFETY: we can unwrap here, because we ensured the Vec exactly matches
-    // with the length of the array.
-    Ok(vec.try_into().unwrap())
+    vec.try_into().map_err(|_| Error::InsufficientData)
 }
 
 macro_rules! ensure_not_empty {
-- 
2.43.0


From d1fa3b16cec778392445a0ef4f2548781b157b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:16 +0000
Subject: [PATCH 03/31] fix: generate the byte slice functions for boxed bytes
 with the Bytes type option

---
 crates/mabo-build/src/encode.rs | 6 +++++-
 crates/mabo-build/src/size.rs   | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/mabo-build/src/encode.rs b/crates/mabo-build/src/encode.rs
index 5481f6a..02f4edb 100644
--- a/crates/mabo-build/src/encode.rs
+++ b/crates/mabo-build/src/encode.rs
@@ -216,7 +216,11 @@ fn compile_data_type(
             quote! { ::mabo::FieldEncoding::LengthPrefixed },
             quote! { ::mabo::buf::encode_string(w, #name) },
         ),
-        Type::Bytes | Type::BytesRef | Type::BoxBytes => match opts.bytes_type {
+        Type::BoxBytes => (
+            quote! { ::mabo::FieldEncoding::LengthPrefixed },
+            quote! { ::mabo::buf::encode_bytes_std(w, #name) },
+        ),
+        Type::Bytes | Type::BytesRef => match opts.bytes_type {
             BytesType::VecU8 => (
                 quote! { ::mabo::FieldEncoding::LengthPrefixed },
                 quote! { ::mabo::buf::encode_bytes_std(w, #name) },
diff --git a/crates/mabo-build/src/size.rs b/crates/mabo-build/src/size.rs
index 6543d6c..a0671ba 100644
--- a/crates/mabo-build/src/size.rs
+++ b/crates/mabo-build/src/size.rs
@@ -200,7 +200,8 @@ pub(crate) fn compile_data_type(opts: &Opts, ty: &Type<'_>, name: TokenStream) -
         Type::String | Type::StringRef | Type::BoxString => {
             quote! { ::mabo::buf::size_string(#name) }
         }
-        Type::Bytes | Type::BytesRef | Type::BoxBytes => match opts.bytes_type {
+        Type::BoxBytes => quote! { ::mabo::buf::size_bytes_std(#name) },
+        Type::Bytes | Type::BytesRef => match opts.bytes_type {
             BytesType::VecU8 => quote! { ::mabo::buf::size_bytes_std(#name) },
             BytesType::Bytes => quote! { ::mabo::buf::size_bytes_bytes(#name) },
         },
-- 
2.43.0


From 3ad54fab689b0a4b19fdf355a43f6e9f32a36206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:55 +0000
Subject: [PATCH 04/31] fix: don't overflow when deriving the identifier after
 the largest one

---
 crates/mabo-compiler/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mabo-compiler/src/lib.rs b/crates/mabo-compiler/src/lib.rs
index 5bd1212..23bbde7 100644
--- a/crates/mabo-compiler/src/lib.rs
+++ b/crates/mabo-compiler/src/lib.rs
@@ -49,7 +49,7 @@ impl IdGenerator {
     /// the ID counter might jump forth and back, as long as each ID is guaranteed to be unique.
     fn next(&mut self, id: Option<&mabo_parser::Id>) -> u32 {
         let id = id.map_or(self.next_id, mabo_parser::Id::get);
-        self.next_id = id + 1;
+        self.next_id = id.saturating_add(1);
         id
     }
 
-- 
2.43.0


From b2329b18bf18098513e5609477b9dc30d36f7914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:28 +0000
Subject: [PATCH 05/31] fix: reject field identifiers that the wire format
 can't represent

---
 crates/mabo-compiler/src/validate/ids.rs | 41 ++++++++++++++++++++++++
 crates/mabo-compiler/src/validate/mod.rs | 11 ++++++-
 crates/mabo-lsp/src/handlers/compile.rs  |  4 +++
 3 files changed, 55 insertions(+), 1 deletion(-)

diff --git a/crates/mabo-compiler/src/validate/ids.rs b/crates/mabo-compiler/src/validate/ids.rs
index b772025..5d1af46 100644
--- a/crates/mabo-compiler/src/validate/ids.rs
+++ b/crates/mabo-compiler/src/validate/ids.rs
@@ -90,6 +90,23 @@ pub struct DuplicateUnnamedFieldId {
     pub second: Range<usize>,
 }
 
+/// Smallest field ID. The zero is reserved on the wire as marker for the end of a struct or variant.
+const MIN_FIELD_ID: u32 = 1;
+/// Largest field ID, as the wire format reserves 3 bits of the 32-bit integer for the encoding.
+const MAX_FIELD_ID: u32 = u32::MAX >> 3;
+
+/// ID of a field is outside the range that can be represented on the wire.
+#[derive(Debug, Diagnostic, Error)]
+#[error("invalid field ID {}", id.get())]
+#[diagnostic(help("field IDs must be in the range of {MIN_FIELD_ID} to {MAX_FIELD_ID}"))]
+pub struct InvalidFieldId {
+    /// The invalid ID.
+    pub id: Id,
+    /// Source location of the ID.
+    #[label("used here")]
+    pub used: Range<usize>,
+}
+
 /// Ensure all IDs inside a struct are unique (which are the field IDs).
 pub(crate) fn validate_struct_ids(value: &Struct<'_>) -> Result<(), DuplicateFieldId> {
     validate_field_ids(&value.fields)
@@ -179,3 +196,27 @@ fn validate_field_ids(value: &Fields<'_>) -> Result<(), DuplicateFieldId> {
 
     Ok(())
 }
+
+/// Ensure all field IDs of a struct or enum variant can be represented on the wire.
+pub(crate) fn validate_field_id_range(value: &Fields<'_>) -> Result<(), InvalidFieldId> {
+    fn validate(id: Id) -> Result<(), InvalidFieldId> {
+        if (MIN_FIELD_ID..=MAX_FIELD_ID).contains(&id.get()) {
+            Ok(())
+        } else {
+            let used = id.span().into();
+            Err(InvalidFieldId { id, used })
+        }
+    }
+
+    let mut id_gen = IdGenerator::new();
+
+    match value {
+        Fields::Named(_, named) => named.values().try_for_each(|field| {
+            validate(id_gen.next_with_span(field.id.as_ref(), || field.span()))
+        }),
+        Fields::Unnamed(_, unnamed) => unnamed.values().try_for_each(|field| {
+            validate(id_gen.next_with_span(field.id.as_ref(), || field.span()))
+        }),
+        Fields::Unit => Ok(()),
+    }
+}
diff --git a/crates/mabo-compiler/src/validate/mod.rs b/crates/mabo-compiler/src/validate/mod.rs
index 73cceba..97a42c5 100644
--- a/crates/mabo-compiler/src/validate/mod.rs
+++ b/crates/mabo-compiler/src/validate/mod.rs
@@ -9,7 +9,7 @@ pub use self::{
     generics::{DuplicateGenericName, InvalidGenericType, UnusedGeneric},
     ids::{
         DuplicateFieldId, DuplicateId, DuplicateNamedFieldId, DuplicateUnnamedFieldId,
-        DuplicateVariantId,
+        DuplicateVariantId, InvalidFieldId,
     },
     names::{DuplicateFieldName, DuplicateName, DuplicateNameInModule, DuplicateVariantName},
     tuples::{InvalidTupleAmount, TupleSize},
@@ -27,6 +27,10 @@ pub enum Error {
     #[error("duplicate ID found")]
     #[diagnostic(transparent)]
     DuplicateId(#[from] DuplicateId),
+    /// Field ID can't be represented on the wire.
+    #[error("invalid ID found")]
+    #[diagnostic(transparent)]
+    InvalidId(#[from] InvalidFieldId),
     /// Duplicate name was used in a definition, or its name clashes with another one.
     #[error("duplicate name found")]
     #[diagnostic(transparent)]
@@ -60,6 +64,7 @@ impl From<DuplicateFieldName> for Error {
 /// - All definitions (struct, enums, modules, ...) have a unique name within their module
 ///   namespace.
 /// - IDs in field names or enum variant names are unique.
+/// - IDs of fields are in the range that the wire format supports.
 /// - Fields names in structs or enum variants are unique.
 /// - Generic type parameters in a struct or enum are unique.
 /// - All generic type parameters are used.
@@ -80,12 +85,16 @@ fn definition(value: &Definition<'_>) -> Result<(), Error> {
         }
         Definition::Struct(s) => {
             ids::validate_struct_ids(s)?;
+            ids::validate_field_id_range(&s.fields)?;
             names::validate_struct_names(s)?;
             generics::validate_struct_generics(s)?;
             tuples::validate_struct_tuples(s)?;
         }
         Definition::Enum(e) => {
             ids::validate_enum_ids(e)?;
+            e.variants
+                .values()
+                .try_for_each(|variant| ids::validate_field_id_range(&variant.fields))?;
             names::validate_enum_names(e)?;
             generics::validate_enum_generics(e)?;
             tuples::validate_enum_tuples(e)?;
diff --git a/crates/mabo-lsp/src/handlers/compile.rs b/crates/mabo-lsp/src/handlers/compile.rs
index 8efe54f..b94bc26 100644
--- a/crates/mabo-lsp/src/handlers/compile.rs
+++ b/crates/mabo-lsp/src/handlers/compile.rs
@@ -205,6 +205,10 @@ fn validate_schema_diagnostic(file: Uri, index: &Index, e: validate::Error) -> D
                 DuplicateFieldId::Unnamed(e) => (e.to_string(), e.first, e.second),
             },
         },
+        Error::InvalidId(e) => {
+            let message = e.to_string();
+            return Diagnostic::new_simple(get_range(index, e.used), message);
+        }
         Error::DuplicateName(e) => match e {
             DuplicateName::EnumVariant(e) => (e.to_string(), e.first, e.second),
             DuplicateName::Field(e) => (e.to_string(), e.first, e.second),
-- 
2.43.0


From d6f67e12bbcd253816704e4c853d110a9251e5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:05 +0000
Subject: [PATCH 06/31] fix: check the types inside of non-zero types, too

---
 crates/mabo-compiler/src/resolve/mod.rs       | 2 +-
 crates/mabo-compiler/src/validate/generics.rs | 2 +-
 crates/mabo-compiler/src/validate/tuples.rs   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/mabo-compiler/src/resolve/mod.rs b/crates/mabo-compiler/src/resolve/mod.rs
index 4ab3f2a..bb16881 100644
--- a/crates/mabo-compiler/src/resolve/mod.rs
+++ b/crates/mabo-compiler/src/resolve/mod.rs
@@ -473,12 +473,12 @@ fn visit_externals<'a>(value: &'a Type<'_>, visit: &mut impl FnMut(&'a ExternalT
         | DataType::StringRef
         | DataType::Bytes
         | DataType::BytesRef
-        | DataType::NonZero { .. }
         | DataType::BoxString
         | DataType::BoxBytes => {}
         DataType::Vec { ty, .. }
         | DataType::HashSet { ty, .. }
         | DataType::Option { ty, .. }
+        | DataType::NonZero { ty, .. }
         | DataType::Array { ty, .. } => {
             visit_externals(ty, visit);
         }
diff --git a/crates/mabo-compiler/src/validate/generics.rs b/crates/mabo-compiler/src/validate/generics.rs
index 44efd35..40dbc4b 100644
--- a/crates/mabo-compiler/src/validate/generics.rs
+++ b/crates/mabo-compiler/src/validate/generics.rs
@@ -162,12 +162,12 @@ fn visit_externals(value: &Type<'_>, visit: &mut impl FnMut(&ExternalType<'_>))
         | DataType::StringRef
         | DataType::Bytes
         | DataType::BytesRef
-        | DataType::NonZero { .. }
         | DataType::BoxString
         | DataType::BoxBytes => {}
         DataType::Vec { ty, .. }
         | DataType::HashSet { ty, .. }
         | DataType::Option { ty, .. }
+        | DataType::NonZero { ty, .. }
         | DataType::Array { ty, .. } => visit_externals(ty, visit),
         DataType::HashMap { key, value, .. } => {
             visit_externals(key, visit);
diff --git a/crates/mabo-compiler/src/validate/tuples.rs b/crates/mabo-compiler/src/validate/tuples.rs
index 439b4bc..7f590dc 100644
--- a/crates/mabo-compiler/src/validate/tuples.rs
+++ b/crates/mabo-compiler/src/validate/tuples.rs
@@ -108,12 +108,12 @@ fn visit_tuples<E>(
         | DataType::StringRef
         | DataType::Bytes
         | DataType::BytesRef
-        | DataType::NonZero { .. }
         | DataType::BoxString
         | DataType::BoxBytes => Ok(()),
         DataType::Vec { ty, .. }
         | DataType::HashSet { ty, .. }
         | DataType::Option { ty, .. }
+        | DataType::NonZero { ty, .. }
         | DataType::Array { ty, .. } => visit_tuples(ty, visit),
         DataType::HashMap { key, value, .. } => {
             visit_tuples(key, visit)?;
-- 
2.43.0


From c51bf98a45ee362ee163bd8126558079d2da2c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:05 +0000
Subject: [PATCH 07/31] fix: accept types that are referenced through an
 imported module

---
 crates/mabo-compiler/src/resolve/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mabo-compiler/src/resolve/mod.rs b/crates/mabo-compiler/src/resolve/mod.rs
index bb16881..662f810 100644
--- a/crates/mabo-compiler/src/resolve/mod.rs
+++ b/crates/mabo-compiler/src/resolve/mod.rs
@@ -598,5 +598,5 @@ pub(crate) fn resolve_type_remotely(
         .into());
     }
 
-    Err(ty.error.into())
+    Ok(())
 }
-- 
2.43.0


From e17ff8fd91ef72c88df527781aff3774b197f4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:06 +0000
Subject: [PATCH 08/31] fix: follow the whole path of types referenced through
 an imported module

---
 crates/mabo-compiler/src/resolve/mod.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/crates/mabo-compiler/src/resolve/mod.rs b/crates/mabo-compiler/src/resolve/mod.rs
index 662f810..2dcde22 100644
--- a/crates/mabo-compiler/src/resolve/mod.rs
+++ b/crates/mabo-compiler/src/resolve/mod.rs
@@ -230,21 +230,18 @@ impl Module<'_> {
     }
 
     fn resolve_remote(&self, ty: &ExternalType<'_>) -> Result<(), ResolveRemote> {
-        let module = if ty
+        // The first segment of the path is the name of the imported module itself.
+        let module = ty
             .path
-            .first()
-            .is_some_and(|(first, _)| first.get() == self.name)
-        {
-            self
-        } else {
-            ty.path.iter().try_fold(self, |module, (name, _)| {
+            .iter()
+            .skip(1)
+            .try_fold(self, |module, (name, _)| {
                 module.modules.get(name.get()).ok_or_else(|| MissingModule {
                     name: name.get().to_owned(),
                     path: module.path_to_string(),
                     used: ty.name.span().into(),
                 })
-            })?
-        };
+            })?;
 
         let definition = module
             .types
-- 
2.43.0


From 9ba7120dafd7035c85327d6e1ea85b233068de9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:32 +0000
Subject: [PATCH 09/31] fix: resolve the types of aliases and constants

---
 crates/mabo-compiler/src/resolve/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/mabo-compiler/src/resolve/mod.rs b/crates/mabo-compiler/src/resolve/mod.rs
index 2dcde22..0c05feb 100644
--- a/crates/mabo-compiler/src/resolve/mod.rs
+++ b/crates/mabo-compiler/src/resolve/mod.rs
@@ -374,7 +374,9 @@ pub(crate) fn resolve_module_types<'a>(
                     resolve_fields(missing, &variant.fields, e.generics.as_ref(), module);
                 }
             }
-            _ => {}
+            Definition::TypeAlias(a) => resolve(missing, &a.target, a.generics.as_ref(), module),
+            Definition::Const(c) => resolve(missing, &c.ty, None, module),
+            Definition::Module(_) | Definition::Import(_) => {}
         }
     }
 
-- 
2.43.0


From 8592c6d2a4ae3c080687181be8fcbf6bd4a2b298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:50 +0000
Subject: [PATCH 10/31] fix: resolve imports in submodules, and limit them to
 the module they're declared in

---
 crates/mabo-compiler/src/resolve/mod.rs | 76 +++++++++++++------------
 1 file changed, 39 insertions(+), 37 deletions(-)

diff --git a/crates/mabo-compiler/src/resolve/mod.rs b/crates/mabo-compiler/src/resolve/mod.rs
index 0c05feb..4d771db 100644
--- a/crates/mabo-compiler/src/resolve/mod.rs
+++ b/crates/mabo-compiler/src/resolve/mod.rs
@@ -36,15 +36,35 @@ pub fn schemas(values: &[(&str, &Schema<'_>)]) -> Result<(), Error> {
         .map(|(name, schema)| (*name, resolve_types(name, schema)))
         .collect::<Vec<_>>();
 
-    for (schema, module) in modules
+    values
         .iter()
-        .enumerate()
-        .map(|(i, (_, module))| (values[i].1, module))
-    {
-        let mut missing = Vec::new();
-        resolve_module_types(module, &mut missing);
+        .zip(&modules)
+        .try_for_each(|((_, schema), (_, module))| resolve_module(schema, module, &modules))
+}
 
-        let imports = resolve_module_imports(module, &modules).map_err(|e| Error {
+/// Resolve all types that are used in a module, and in any of its submodules. Each module can only
+/// make use of its own imports.
+fn resolve_module(
+    schema: &Schema<'_>,
+    module: &Module<'_>,
+    schemas: &[(&str, Module<'_>)],
+) -> Result<(), Error> {
+    let mut missing = Vec::new();
+    resolve_module_types(module, &mut missing);
+
+    let imports = resolve_module_imports(module, schemas).map_err(|e| Error {
+        source_code: NamedSource::new(
+            schema
+                .path
+                .as_ref()
+                .map_or_else(|| "<unknown>".to_owned(), |p| p.display().to_string()),
+            schema.source.to_owned(),
+        ),
+        cause: ResolveError::Import(e.into()),
+    })?;
+
+    for ty in missing {
+        resolve_type_remotely(ty, &imports).map_err(|e| Error {
             source_code: NamedSource::new(
                 schema
                     .path
@@ -52,24 +72,14 @@ pub fn schemas(values: &[(&str, &Schema<'_>)]) -> Result<(), Error> {
                     .map_or_else(|| "<unknown>".to_owned(), |p| p.display().to_string()),
                 schema.source.to_owned(),
             ),
-            cause: ResolveError::Import(e.into()),
+            cause: e,
         })?;
-
-        for ty in missing {
-            resolve_type_remotely(ty, &imports).map_err(|e| Error {
-                source_code: NamedSource::new(
-                    schema
-                        .path
-                        .as_ref()
-                        .map_or_else(|| "<unknown>".to_owned(), |p| p.display().to_string()),
-                    schema.source.to_owned(),
-                ),
-                cause: e,
-            })?;
-        }
     }
 
-    Ok(())
+    module
+        .modules
+        .values()
+        .try_for_each(|module| resolve_module(schema, module, schemas))
 }
 
 pub(crate) struct Module<'a> {
@@ -231,17 +241,13 @@ impl Module<'_> {
 
     fn resolve_remote(&self, ty: &ExternalType<'_>) -> Result<(), ResolveRemote> {
         // The first segment of the path is the name of the imported module itself.
-        let module = ty
-            .path
-            .iter()
-            .skip(1)
-            .try_fold(self, |module, (name, _)| {
-                module.modules.get(name.get()).ok_or_else(|| MissingModule {
-                    name: name.get().to_owned(),
-                    path: module.path_to_string(),
-                    used: ty.name.span().into(),
-                })
-            })?;
+        let module = ty.path.iter().skip(1).try_fold(self, |module, (name, _)| {
+            module.modules.get(name.get()).ok_or_else(|| MissingModule {
+                name: name.get().to_owned(),
+                path: module.path_to_string(),
+                used: ty.name.span().into(),
+            })
+        })?;
 
         let definition = module
             .types
@@ -379,10 +385,6 @@ pub(crate) fn resolve_module_types<'a>(
             Definition::Module(_) | Definition::Import(_) => {}
         }
     }
-
-    for module in module.modules.values() {
-        resolve_module_types(module, missing);
-    }
 }
 
 pub(crate) fn resolve_types<'a>(name: &'a str, schema: &'a Schema<'a>) -> Module<'a> {
-- 
2.43.0


From 59a9b97938a2c9cae3872e909cb54c238def13ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:08 +0000
Subject: [PATCH 11/31] fix: report schema files that check or fmt couldn't
 parse in the exit status

---
 crates/mabo-cli/src/main.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/mabo-cli/src/main.rs b/crates/mabo-cli/src/main.rs
index 0466330..1bd395a 100644
--- a/crates/mabo-cli/src/main.rs
+++ b/crates/mabo-cli/src/main.rs
@@ -6,7 +6,7 @@ use std::{
     process::ExitCode,
 };
 
-use anyhow::Context;
+use anyhow::{Context, ensure};
 use mabo_parser::Schema;
 use miette::Context as _;
 
@@ -44,24 +44,32 @@ fn main() -> ExitCode {
 }
 
 fn check(args: CheckArgs) -> anyhow::Result<()> {
+    let mut failed = false;
+
     for file in project_or_files(args.project_dir, args.files)? {
         let buf = fs::read_to_string(&file).with_context(|| format!("failed reading {file:?}"))?;
 
         if let Err(e) = Schema::parse(&buf, Some(&file)).wrap_err("failed parsing schema file") {
             eprintln!("{e:?}");
+            failed = true;
         }
     }
 
+    ensure!(!failed, "some schema files are invalid");
+
     Ok(())
 }
 
 fn format(args: FmtArgs) -> anyhow::Result<()> {
+    let mut failed = false;
+
     for file in project_or_files(args.project_dir, args.files)? {
         let buf = fs::read_to_string(&file)?;
         let schema = match Schema::parse(&buf, Some(&file)).wrap_err("Failed parsing schema file") {
             Ok(schema) => schema,
             Err(e) => {
                 eprintln!("{e:?}");
+                failed = true;
                 continue;
             }
         };
@@ -73,6 +81,8 @@ fn format(args: FmtArgs) -> anyhow::Result<()> {
         }
     }
 
+    ensure!(!failed, "some schema files couldn't be formatted");
+
     Ok(())
 }
 
-- 
2.43.0


From 490d614bbd030e4e72f469edd80832bedaa3526c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:02 +0000
Subject: [PATCH 12/31] fix: validate and resolve schemas in the check command,
 as documented

---
 crates/mabo-cli/src/main.rs | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/crates/mabo-cli/src/main.rs b/crates/mabo-cli/src/main.rs
index 1bd395a..17db9c7 100644
--- a/crates/mabo-cli/src/main.rs
+++ b/crates/mabo-cli/src/main.rs
@@ -1,12 +1,13 @@
 //! Main command line interface for tooling support of Mabo schema files.
 
 use std::{
+    ffi::OsStr,
     fs,
     path::{Path, PathBuf},
     process::ExitCode,
 };
 
-use anyhow::{Context, ensure};
+use anyhow::{Context, anyhow, bail, ensure};
 use mabo_parser::Schema;
 use miette::Context as _;
 
@@ -44,19 +45,50 @@ fn main() -> ExitCode {
 }
 
 fn check(args: CheckArgs) -> anyhow::Result<()> {
+    let mut inputs = Vec::new();
+    let mut schemas = Vec::new();
     let mut failed = false;
 
     for file in project_or_files(args.project_dir, args.files)? {
         let buf = fs::read_to_string(&file).with_context(|| format!("failed reading {file:?}"))?;
+        inputs.push((file, buf));
+    }
+
+    for (file, buf) in &inputs {
+        let stem = file
+            .file_stem()
+            .and_then(OsStr::to_str)
+            .ok_or_else(|| anyhow!("invalid file name {file:?}"))?;
+
+        let schema = match Schema::parse(buf, Some(file)).wrap_err("failed parsing schema file") {
+            Ok(schema) => schema,
+            Err(e) => {
+                eprintln!("{e:?}");
+                failed = true;
+                continue;
+            }
+        };
 
-        if let Err(e) = Schema::parse(&buf, Some(&file)).wrap_err("failed parsing schema file") {
+        if let Err(e) = mabo_compiler::validate_schema(&schema).wrap_err("invalid schema file") {
             eprintln!("{e:?}");
             failed = true;
         }
+
+        schemas.push((stem, schema));
     }
 
     ensure!(!failed, "some schema files are invalid");
 
+    let schemas = schemas
+        .iter()
+        .map(|(name, schema)| (*name, schema))
+        .collect::<Vec<_>>();
+
+    if let Err(e) = mabo_compiler::resolve_schemas(&schemas).wrap_err("failed resolving types") {
+        eprintln!("{e:?}");
+        bail!("some schema files are invalid");
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From 6b441b645b59ccede3277860d0757939026a0afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:14 +0000
Subject: [PATCH 13/31] fix: reject schema files of the same name instead of
 overwriting their generated code

---
 crates/mabo-build/src/lib.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/mabo-build/src/lib.rs b/crates/mabo-build/src/lib.rs
index 7f4cc4e..4cae6c5 100644
--- a/crates/mabo-build/src/lib.rs
+++ b/crates/mabo-build/src/lib.rs
@@ -1,6 +1,6 @@
 //! Code generator crate for Rust projects that can be used in `build.rs` build scripts.
 
-use std::{env, fmt::Debug, fs, path::PathBuf};
+use std::{collections::HashSet, env, fmt::Debug, fs, path::PathBuf};
 
 use mabo_parser::Schema;
 use miette::Report;
@@ -32,6 +32,12 @@ pub enum Error {
     /// The file name wasn't valid UTF-8.
     #[error("the file name was not encoded in valid UTF-8")]
     NonUtf8FileName,
+    /// Two schema files have the same name, so their generated code would end up in the same file.
+    #[error("the file name of {file:?} is already used by another schema file")]
+    DuplicateFileName {
+        /// The problematic file.
+        file: PathBuf,
+    },
     /// Failed to create the output directory for generated Rust source files.
     #[error("failed creating output directory at {path:?}")]
     Create {
@@ -151,6 +157,7 @@ impl Compiler {
         })?;
 
         let mut inputs = Vec::new();
+        let mut stems = HashSet::new();
         let mut validated = Vec::new();
 
         for path in project.files {
@@ -169,6 +176,10 @@ impl Compiler {
                 .to_str()
                 .ok_or(Error::NonUtf8FileName)?;
 
+            if !stems.insert(stem) {
+                return Err(Error::DuplicateFileName { file: path.clone() });
+            }
+
             let schema = Schema::parse(input, Some(path)).map_err(|e| Error::Parse {
                 report: Report::new(e),
                 file: path.clone(),
-- 
2.43.0


From de45177b8523a61d40aac1629467f0feb05d9322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:46 +0000
Subject: [PATCH 14/31] fix: give no next id instead of overflowing when the
 highest one is in use

---
 crates/mabo-lsp/src/handlers/hover.rs | 12 +++++------
 crates/mabo-meta/src/lib.rs           | 29 +++++++++++++++------------
 2 files changed, 22 insertions(+), 19 deletions(-)

diff --git a/crates/mabo-lsp/src/handlers/hover.rs b/crates/mabo-lsp/src/handlers/hover.rs
index 9f2eedc..e674ff5 100644
--- a/crates/mabo-lsp/src/handlers/hover.rs
+++ b/crates/mabo-lsp/src/handlers/hover.rs
@@ -81,12 +81,12 @@ fn visit_enum(config: &config::Hover, item: &Enum<'_>, position: usize) -> Optio
         .then(|| {
             let mut text = fold_comment(&item.comment);
 
-            if config.show_next_id {
-                let _ = writeln!(
-                    &mut text,
-                    "- next ID: `{}`",
-                    mabo_meta::next_variant_id(&item.variants)
-                );
+            if let Some(next_id) = config
+                .show_next_id
+                .then(|| mabo_meta::next_variant_id(&item.variants))
+                .flatten()
+            {
+                let _ = writeln!(&mut text, "- next ID: `{next_id}`");
             }
 
             (text, item.source.name.span())
diff --git a/crates/mabo-meta/src/lib.rs b/crates/mabo-meta/src/lib.rs
index 5836b45..033124f 100644
--- a/crates/mabo-meta/src/lib.rs
+++ b/crates/mabo-meta/src/lib.rs
@@ -7,27 +7,30 @@ use std::{borrow::Cow, fmt::Write};
 
 use mabo_compiler::simplify::{FieldKind, Fields, Type, Variant};
 
-/// Get the next free ID for an enum variant.
+/// Get the next free ID for an enum variant, or nothing if the highest possible one is in use.
 #[must_use]
-pub fn next_variant_id(variants: &[Variant<'_>]) -> u32 {
-    variants.iter().map(|variant| variant.id).max().unwrap_or(0) + 1
+pub fn next_variant_id(variants: &[Variant<'_>]) -> Option<u32> {
+    variants
+        .iter()
+        .map(|variant| variant.id)
+        .max()
+        .unwrap_or(0)
+        .checked_add(1)
 }
 
-/// Get the next free ID for a struct or enum variant field.
+/// Get the next free ID for a struct or enum variant field, or nothing if there can't be any.
 #[must_use]
 pub fn next_field_id(fields: &Fields<'_>) -> Option<u32> {
     if fields.kind == FieldKind::Unit {
         None
     } else {
-        Some(
-            fields
-                .fields
-                .iter()
-                .map(|field| field.id)
-                .max()
-                .unwrap_or(0)
-                + 1,
-        )
+        fields
+            .fields
+            .iter()
+            .map(|field| field.id)
+            .max()
+            .unwrap_or(0)
+            .checked_add(1)
     }
 }
 
-- 
2.43.0


From de891cbe0af3c61101ba37816b541f8804cd1ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:46 +0000
Subject: [PATCH 15/31] fix: derive the announced length prefix of arrays from
 their size in bytes, without overflows

---
 crates/mabo-meta/src/lib.rs | 40 ++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/crates/mabo-meta/src/lib.rs b/crates/mabo-meta/src/lib.rs
index 033124f..29ba737 100644
--- a/crates/mabo-meta/src/lib.rs
+++ b/crates/mabo-meta/src/lib.rs
@@ -148,7 +148,7 @@ pub fn wire_size(ty: &Type<'_>) -> Option<WireSize> {
             WireSize {
                 label: "option".into(),
                 min: 0,
-                max: inner.as_ref().and_then(|size| size.max).map(|max| 1 + max),
+                max: inner.as_ref().and_then(|size| size.max?.checked_add(1)),
                 inner: vec![("value".into(), inner)],
             }
         }
@@ -157,7 +157,7 @@ pub fn wire_size(ty: &Type<'_>) -> Option<WireSize> {
             WireSize {
                 label: "non_zero".into(),
                 min: 0,
-                max: inner.as_ref().and_then(|size| size.max).map(|max| 1 + max),
+                max: inner.as_ref().and_then(|size| size.max?.checked_add(1)),
                 inner: vec![("value".into(), inner)],
             }
         }
@@ -170,18 +170,31 @@ pub fn wire_size(ty: &Type<'_>) -> Option<WireSize> {
 }
 
 fn wire_size_array(ty: &Type<'_>, size: u32) -> WireSize {
-    let length = varint_size(size);
     let inner = wire_size(ty);
 
+    // The length prefix holds the size of the content in bytes, not the amount of elements.
+    let min = inner
+        .as_ref()
+        .map_or(0, |inner| inner.min)
+        .saturating_mul(size as usize);
+    let max = inner
+        .as_ref()
+        .and_then(|inner| inner.max?.checked_mul(size as usize));
+
     WireSize {
         label: "array".into(),
-        min: length + inner.as_ref().map_or(0, |size| size.min) * size as usize,
-        max: inner
-            .as_ref()
-            .and_then(|size| size.max)
-            .map(|max| length + max * size as usize),
+        min: min.saturating_add(varint_size(min)),
+        max: max.and_then(|max| max.checked_add(varint_size(max))),
         inner: vec![
-            ("length".into(), Some(WireSize::fixed("u64", length))),
+            (
+                "length".into(),
+                Some(WireSize {
+                    label: "u64".into(),
+                    min: varint_size(min),
+                    max: max.map(varint_size),
+                    inner: Vec::new(),
+                }),
+            ),
             ("element".into(), inner),
         ],
     }
@@ -199,16 +212,15 @@ fn wire_size_tuple(types: &[Type<'_>]) -> WireSize {
         min: inner
             .iter()
             .filter_map(|(_, size)| size.as_ref())
-            .map(|size| size.min)
-            .sum(),
+            .fold(0, |sum, size| size.min.saturating_add(sum)),
         max: inner
             .iter()
             .map(|(_, size)| size.as_ref().and_then(|s| s.max))
-            .sum(),
+            .try_fold(0, |sum: usize, size| sum.checked_add(size?)),
         inner,
     }
 }
 
-fn varint_size(value: u32) -> usize {
-    ((std::mem::size_of::<u32>() * 8 - value.leading_zeros() as usize).div_ceil(7)).max(1)
+fn varint_size(value: usize) -> usize {
+    ((std::mem::size_of::<usize>() * 8 - value.leading_zeros() as usize).div_ceil(7)).max(1)
 }
-- 
2.43.0


From e64934f5abed12ef474f81c3ad882d80e24797f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:25 +0000
Subject: [PATCH 16/31] fix: parse the escape for NUL characters the way
 strings are printed

---
 crates/mabo-parser/src/parser/literals.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mabo-parser/src/parser/literals.rs b/crates/mabo-parser/src/parser/literals.rs
index e5e19bb..a0af750 100644
--- a/crates/mabo-parser/src/parser/literals.rs
+++ b/crates/mabo-parser/src/parser/literals.rs
@@ -195,7 +195,7 @@ fn parse_string_escaped_char(input: &mut Input<'_>) -> Result<char, Cause> {
             'b' => 'b'.value('\u{08}'),
             'f' => 'f'.value('\u{0c}'),
             '\\' => '\\'.value('\\'),
-            '\0' => '\0'.value('\0'),
+            '0' => '0'.value('\0'),
             '/' => '/'.value('/'),
             '"' => '"'.value('"'),
             'u' => parse_string_unicode,
-- 
2.43.0


From 3f4a564b8d44a9aa55d9bfb2a2719bc4dfabc908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:26 +0000
Subject: [PATCH 17/31] fix: keep the decimal point when printing whole
 floating point literals

---
 crates/mabo-parser/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/mabo-parser/src/lib.rs b/crates/mabo-parser/src/lib.rs
index dc29c78..777e465 100644
--- a/crates/mabo-parser/src/lib.rs
+++ b/crates/mabo-parser/src/lib.rs
@@ -1266,6 +1266,8 @@ impl Display for LiteralValue {
         match *self {
             Self::Bool(v) => v.fmt(f),
             Self::Int(v) => v.fmt(f),
+            // Whole numbers must keep the decimal point, or they would be integers when parsed again.
+            Self::Float(v) if v.fract() == 0.0 => write!(f, "{v:.1}"),
             Self::Float(v) => v.fmt(f),
             Self::String(ref v) => write!(f, "{v:?}"),
             Self::Bytes(ref v) => write!(f, "{v:?}"),
-- 
2.43.0


From e7d515ed1ff630d87eef65ff2ec8dd0a5d57d109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:26 +0000
Subject: [PATCH 18/31] fix: reject floating point literals that are too large
 for any value

---
 crates/mabo-parser/src/parser/literals.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/mabo-parser/src/parser/literals.rs b/crates/mabo-parser/src/parser/literals.rs
index a0af750..87ed3a0 100644
--- a/crates/mabo-parser/src/parser/literals.rs
+++ b/crates/mabo-parser/src/parser/literals.rs
@@ -130,6 +130,7 @@ fn parse_float(input: &mut Input<'_>) -> Result<f64, Cause> {
     )
         .take()
         .parse_to()
+        .verify(|v: &f64| v.is_finite())
         .parse_next(input)
 }
 
-- 
2.43.0


From 3ecacddb7453d329138a5db66cbde5009b80756a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:26 +0000
Subject: [PATCH 19/31] fix: accept a unit struct at the very end of the schema

---
 crates/mabo-parser/src/parser/fields.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/mabo-parser/src/parser/fields.rs b/crates/mabo-parser/src/parser/fields.rs
index 358ac26..14c69f5 100644
--- a/crates/mabo-parser/src/parser/fields.rs
+++ b/crates/mabo-parser/src/parser/fields.rs
@@ -74,9 +74,9 @@ pub(super) fn parse<'i>(input: &mut Input<'i>) -> Result<Fields<'i>, ParseError>
     let start = input.checkpoint();
 
     dispatch!(
-        peek(any);
-        '{' => parse_named.map(|(brace, fields)| Fields::Named(brace, fields)),
-        '(' => parse_unnamed.map(|(paren, fields)| Fields::Unnamed(paren, fields)),
+        peek(opt(any));
+        Some('{') => parse_named.map(|(brace, fields)| Fields::Named(brace, fields)),
+        Some('(') => parse_unnamed.map(|(paren, fields)| Fields::Unnamed(paren, fields)),
         _ => parse_unit.map(|()| Fields::Unit),
     )
     .parse_next(input)
-- 
2.43.0


From 6a1f8eda6574347a3807a2d9eb8ec06a0edfa9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:27 +0000
Subject: [PATCH 20/31] fix: leave the white space in front of fields and
 variants out of their spans

---
 crates/mabo-parser/src/parser/enums.rs  | 15 ++++++-----
 crates/mabo-parser/src/parser/fields.rs | 35 ++++++++++++++-----------
 2 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/crates/mabo-parser/src/parser/enums.rs b/crates/mabo-parser/src/parser/enums.rs
index c6d17a6..2fc3d6b 100644
--- a/crates/mabo-parser/src/parser/enums.rs
+++ b/crates/mabo-parser/src/parser/enums.rs
@@ -137,12 +137,15 @@ fn parse_variants<'i>(
 fn parse_variant<'i>(input: &mut Input<'i>) -> Result<Variant<'i>, Cause> {
     (
         ws(comments::parse.map_err2(Cause::from)),
-        (
-            preceded(space0, parse_variant_name.with_span()),
-            preceded(space0, fields::parse.map_err2(Cause::from)),
-            opt(preceded(space0, ids::parse.map_err2(Cause::from))),
-        )
-            .with_span(),
+        preceded(
+            space0,
+            (
+                parse_variant_name.with_span(),
+                preceded(space0, fields::parse.map_err2(Cause::from)),
+                opt(preceded(space0, ids::parse.map_err2(Cause::from))),
+            )
+                .with_span(),
+        ),
     )
         .parse_next(input)
         .map(|(comment, ((name, fields, id), span))| Variant {
diff --git a/crates/mabo-parser/src/parser/fields.rs b/crates/mabo-parser/src/parser/fields.rs
index 14c69f5..519af66 100644
--- a/crates/mabo-parser/src/parser/fields.rs
+++ b/crates/mabo-parser/src/parser/fields.rs
@@ -113,29 +113,32 @@ fn parse_unit(input: &mut Input<'_>) -> Result<(), Cause> {
 }
 
 fn parse_unnamed_field<'i>(input: &mut Input<'i>) -> Result<UnnamedField<'i>, Cause> {
-    (
-        ws(types::parse.map_err2(Cause::from)),
+    ws((
+        types::parse.map_err2(Cause::from),
         opt(preceded(space0, ids::parse.map_err2(Cause::from))),
     )
-        .with_span()
-        .parse_next(input)
-        .map(|((ty, id), span)| UnnamedField {
-            ty,
-            id,
-            span: span.into(),
-        })
+        .with_span())
+    .parse_next(input)
+    .map(|((ty, id), span)| UnnamedField {
+        ty,
+        id,
+        span: span.into(),
+    })
 }
 
 fn parse_named_field<'i>(input: &mut Input<'i>) -> Result<NamedField<'i>, Cause> {
     (
         ws(comments::parse.map_err2(Cause::from)),
-        (
-            preceded(space0, parse_field_name),
-            preceded(space0, token::Colon::parser()),
-            preceded(space0, types::parse.map_err2(Cause::from)),
-            opt(preceded(space0, ids::parse.map_err2(Cause::from))),
-        )
-            .with_span(),
+        preceded(
+            space0,
+            (
+                parse_field_name,
+                preceded(space0, token::Colon::parser()),
+                preceded(space0, types::parse.map_err2(Cause::from)),
+                opt(preceded(space0, ids::parse.map_err2(Cause::from))),
+            )
+                .with_span(),
+        ),
     )
         .parse_next(input)
         .map(|(comment, ((name, colon, ty, id), span))| NamedField {
-- 
2.43.0


From 368f0d7ad6b276186f0ea660bf69154fbe713792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:22 +0000
Subject: [PATCH 21/31] fix: leave the white space behind unit variants out of
 their spans

---
 crates/mabo-parser/src/parser/enums.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/mabo-parser/src/parser/enums.rs b/crates/mabo-parser/src/parser/enums.rs
index 2fc3d6b..c1d3968 100644
--- a/crates/mabo-parser/src/parser/enums.rs
+++ b/crates/mabo-parser/src/parser/enums.rs
@@ -4,14 +4,16 @@ use mabo_derive::{ParserError, ParserErrorCause};
 use winnow::{
     Parser,
     ascii::{alphanumeric0, space0, space1},
-    combinator::{cut_err, opt, preceded, terminated},
+    combinator::{cut_err, opt, peek, preceded, terminated},
     error::ErrMode,
     stream::Location,
     token::one_of,
 };
 
 use super::{Input, ParserExt, Result, comments, fields, generics, ids, punctuate, surround, ws};
-use crate::{Attributes, Comment, Enum, Name, Variant, highlight, punctuated::Punctuated, token};
+use crate::{
+    Attributes, Comment, Enum, Fields, Name, Variant, highlight, punctuated::Punctuated, token,
+};
 
 /// Encountered an invalid `enum` declaration.
 #[derive(Debug, ParserError)]
@@ -141,7 +143,11 @@ fn parse_variant<'i>(input: &mut Input<'i>) -> Result<Variant<'i>, Cause> {
             space0,
             (
                 parse_variant_name.with_span(),
-                preceded(space0, fields::parse.map_err2(Cause::from)),
+                opt(preceded(
+                    (space0, peek(one_of(['{', '(']))),
+                    fields::parse.map_err2(Cause::from),
+                ))
+                .map(|fields| fields.unwrap_or(Fields::Unit)),
                 opt(preceded(space0, ids::parse.map_err2(Cause::from))),
             )
                 .with_span(),
-- 
2.43.0


From b6c6d39ee8902e50063566c5577e006ad4568154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:39 +0000
Subject: [PATCH 22/31] fix: keep the text of a document in step with several
 changes at once

Every change of a didChange notification refers to the document as the
previous one left it, but all ranges were located with the line index from
before the first. A change without a range was skipped when it was not the
only one.
---
 crates/mabo-lsp/src/handlers/mod.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/crates/mabo-lsp/src/handlers/mod.rs b/crates/mabo-lsp/src/handlers/mod.rs
index 0dcd8f0..0c6840b 100644
--- a/crates/mabo-lsp/src/handlers/mod.rs
+++ b/crates/mabo-lsp/src/handlers/mod.rs
@@ -202,6 +202,12 @@ pub fn did_change(state: &mut GlobalState<'_>, mut params: DidChangeTextDocument
 
         update_file(params.text_document.uri.clone(), file, |rope, index| {
             for change in params.content_changes {
+                if change.range.is_none() {
+                    *rope = Rope::from_str(&change.text);
+                    index.update(LineIndex::new(&change.text));
+                    continue;
+                }
+
                 let range = match convert_range(index, change.range) {
                     Ok(range) => range,
                     Err(e) => {
@@ -214,6 +220,9 @@ pub fn did_change(state: &mut GlobalState<'_>, mut params: DidChangeTextDocument
                 let end = rope.byte_to_char(range.end().into());
                 rope.remove(start..end);
                 rope.insert(start, &change.text);
+
+                // Every change refers to the state of the document after the previous one.
+                index.update(LineIndex::new(&String::from(&*rope)));
             }
         })
     };
@@ -354,10 +363,14 @@ fn create_file(encoding: &PositionEncodingKind, uri: Uri, text: String) -> state
     .build()
 }
 
-fn update_file(uri: Uri, file: state::File, update: impl FnOnce(&mut Rope, &Index)) -> state::File {
+fn update_file(
+    uri: Uri,
+    file: state::File,
+    update: impl FnOnce(&mut Rope, &mut Index),
+) -> state::File {
     let mut heads = file.into_heads();
 
-    update(&mut heads.rope, &heads.index);
+    update(&mut heads.rope, &mut heads.index);
     let text = String::from(&heads.rope);
 
     heads.index.update(LineIndex::new(&text));
-- 
2.43.0


From 034c494fca04112b50c6dd5643d26a781ce0b43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:54 +0000
Subject: [PATCH 23/31] fix: keep messages that arrive while waiting for a
 response

The language server dropped any request or notification of the client that
arrived between a request of its own and the response to it, and failed its
own request on top. A document opened right after the initialization was
never seen.
---
 crates/mabo-lsp/src/client.rs | 66 +++++++++++++++++++++--------------
 crates/mabo-lsp/src/main.rs   |  2 +-
 2 files changed, 40 insertions(+), 28 deletions(-)

diff --git a/crates/mabo-lsp/src/client.rs b/crates/mabo-lsp/src/client.rs
index 01b7dce..d2b772f 100644
--- a/crates/mabo-lsp/src/client.rs
+++ b/crates/mabo-lsp/src/client.rs
@@ -1,7 +1,10 @@
-use std::time::Duration;
+use std::{
+    collections::VecDeque,
+    time::{Duration, Instant},
+};
 
-use anyhow::{Context, Result, bail, ensure};
-use log::trace;
+use anyhow::{Context, Result, bail};
+use log::{debug, trace};
 use lsp_server::{Connection, Message, Notification, Request, Response};
 use lsp_types::{
     ConfigurationItem, ConfigurationParams, Diagnostic, PublishDiagnosticsParams, Registration,
@@ -13,11 +16,24 @@ use lsp_types::{
 pub struct Client<'a> {
     conn: &'a Connection,
     next_id: i32,
+    /// Messages that arrived while waiting for the response to a request of the server.
+    pending: VecDeque<Message>,
 }
 
 impl<'a> Client<'a> {
     pub fn new(conn: &'a Connection) -> Self {
-        Self { conn, next_id: 0 }
+        Self {
+            conn,
+            next_id: 0,
+            pending: VecDeque::new(),
+        }
+    }
+
+    /// Next message of the client to process, or [`None`] once the connection is closed.
+    pub fn next_message(&mut self) -> Option<Message> {
+        self.pending
+            .pop_front()
+            .or_else(|| self.conn.receiver.recv().ok())
     }
 
     fn next_id(&mut self) -> i32 {
@@ -53,30 +69,26 @@ impl<'a> Client<'a> {
             .send_timeout(request, Duration::from_secs(2))
             .context("timeout sending request")?;
 
-        match self
-            .conn
-            .receiver
-            .recv_timeout(Duration::from_secs(2))
-            .context("timeout receiving response")?
-        {
-            Message::Response(Response {
-                id,
-                result,
-                error: None,
-            }) => {
-                ensure!(
-                    id == req_id.into(),
-                    "invalid ID (wanted {id}, but got {req_id})"
-                );
-                let result = result.unwrap_or(serde_json::Value::Null);
-                serde_json::from_value(result).map_err(Into::into)
+        let deadline = Instant::now() + Duration::from_secs(2);
+
+        loop {
+            match self
+                .conn
+                .receiver
+                .recv_deadline(deadline)
+                .context("timeout receiving response")?
+            {
+                Message::Response(Response { id, result, error }) if id == req_id.into() => {
+                    if let Some(error) = error {
+                        bail!("request {id} failed: {error:?}");
+                    }
+
+                    let result = result.unwrap_or(serde_json::Value::Null);
+                    return serde_json::from_value(result).map_err(Into::into);
+                }
+                Message::Response(resp) => debug!(response:? = resp; "got unexpected response"),
+                msg => self.pending.push_back(msg),
             }
-            Message::Response(Response {
-                id,
-                result: None,
-                error: Some(error),
-            }) => bail!("request {id} failed: {error:?}"),
-            _ => bail!("invalid message type"),
         }
     }
 
diff --git a/crates/mabo-lsp/src/main.rs b/crates/mabo-lsp/src/main.rs
index d1a8c42..4fb7223 100644
--- a/crates/mabo-lsp/src/main.rs
+++ b/crates/mabo-lsp/src/main.rs
@@ -67,7 +67,7 @@ fn main() -> Result<()> {
 }
 
 fn main_loop(conn: &Connection, mut state: GlobalState<'_>) -> Result<()> {
-    for msg in &conn.receiver {
+    while let Some(msg) = state.client.next_message() {
         match msg {
             lsp_server::Message::Request(req) => {
                 if conn.handle_shutdown(&req)? {
-- 
2.43.0


From 64d8f316996bb77835f8347fea84a8a23d7810d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:33 +0000
Subject: [PATCH 24/31] fix: announce a position encoding the server can
 convert

---
 crates/mabo-lsp/src/handlers/index.rs | 4 ++++
 crates/mabo-lsp/src/handlers/mod.rs   | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/mabo-lsp/src/handlers/index.rs b/crates/mabo-lsp/src/handlers/index.rs
index 649990b..9293e50 100644
--- a/crates/mabo-lsp/src/handlers/index.rs
+++ b/crates/mabo-lsp/src/handlers/index.rs
@@ -21,6 +21,10 @@ impl Index {
         }
     }
 
+    pub fn supports(encoding: &lsp::PositionEncodingKind) -> bool {
+        matches!(encoding.as_str(), "utf-8" | "utf-16" | "utf-32")
+    }
+
     pub fn update(&mut self, index: LineIndex) {
         self.index = index;
     }
diff --git a/crates/mabo-lsp/src/handlers/mod.rs b/crates/mabo-lsp/src/handlers/mod.rs
index 0c6840b..87cea25 100644
--- a/crates/mabo-lsp/src/handlers/mod.rs
+++ b/crates/mabo-lsp/src/handlers/mod.rs
@@ -39,13 +39,13 @@ pub fn initialize(
 ) -> Result<InitializeResult> {
     log::trace!("{params:#?}");
 
-    // Select the most preferred position encoding defined by the client.
+    // Select the most preferred position encoding defined by the client, out of the supported ones.
     state.encoding = params
         .capabilities
         .general
         .as_ref()
         .and_then(|general| general.position_encodings.as_ref())
-        .and_then(|encodings| encodings.first())
+        .and_then(|encodings| encodings.iter().find(|&encoding| Index::supports(encoding)))
         .cloned()
         .unwrap_or(PositionEncodingKind::UTF16);
 
-- 
2.43.0


From 543880dbdbe012fbdc3677869279eeb7c2c5333f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:50 +0000
Subject: [PATCH 25/31] fix: declare type parameters in Go by the name they are
 used by

---
 crates/mabo-go/src/definition.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/mabo-go/src/definition.rs b/crates/mabo-go/src/definition.rs
index b1fcc8f..b18a05d 100644
--- a/crates/mabo-go/src/definition.rs
+++ b/crates/mabo-go/src/definition.rs
@@ -222,7 +222,7 @@ impl Display for RenderGenerics<'_> {
             if i > 0 {
                 f.write_str(", ")?;
             }
-            write!(f, "{value} any")?;
+            write!(f, "{} any", heck::AsUpperCamelCase(value))?;
         }
         f.write_char(']')
     }
@@ -261,7 +261,7 @@ impl Display for RenderGenericNames<'_> {
             if i > 0 {
                 f.write_str(", ")?;
             }
-            write!(f, "{value}")?;
+            write!(f, "{}", heck::AsUpperCamelCase(value))?;
         }
         f.write_char(']')
     }
-- 
2.43.0


From 071cbbe86cedcdc229f90b7a4925c78df4ee715f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:51 +0000
Subject: [PATCH 26/31] fix: keep the type parameters of aliases in Go

---
 crates/mabo-go/src/definition.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/mabo-go/src/definition.rs b/crates/mabo-go/src/definition.rs
index b18a05d..474d648 100644
--- a/crates/mabo-go/src/definition.rs
+++ b/crates/mabo-go/src/definition.rs
@@ -363,12 +363,16 @@ impl Display for RenderAlias<'_> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         writeln!(
             f,
-            "{}type {} {}",
+            "{}type {}{} {}",
             RenderComment {
                 indent: Indent(0),
                 comment: &self.0.comment,
             },
             heck::AsUpperCamelCase(&self.0.name),
+            RenderGenerics {
+                generics: &self.0.generics,
+                fields_filter: None,
+            },
             RenderType(&self.0.target),
         )
     }
-- 
2.43.0


From b83a44044aa8a2e15e76871b45f6ec0b4727793e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:53 +0000
Subject: [PATCH 27/31] fix: see type parameters within type arguments in Go

---
 crates/mabo-go/src/definition.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/mabo-go/src/definition.rs b/crates/mabo-go/src/definition.rs
index 474d648..b39ca62 100644
--- a/crates/mabo-go/src/definition.rs
+++ b/crates/mabo-go/src/definition.rs
@@ -717,7 +717,9 @@ fn uses_generic(generic: &str, fields: &Fields<'_>) -> bool {
             | Type::Array(ty, _) => visit_external(ty, visit),
             Type::HashMap(kv) => visit_external(&kv.0, visit) || visit_external(&kv.1, visit),
             Type::Tuple(types) => types.iter().any(|ty| visit_external(ty, visit)),
-            Type::External(ty) => visit(ty),
+            Type::External(ty) => {
+                visit(ty) || ty.generics.iter().any(|ty| visit_external(ty, visit))
+            }
         }
     }
 
-- 
2.43.0


From e3841f352e4c06f29027b5a30d0b924547ea2ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:54 +0000
Subject: [PATCH 28/31] fix: give empty bytes constants a value in Go

---
 crates/mabo-go/src/definition.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/crates/mabo-go/src/definition.rs b/crates/mabo-go/src/definition.rs
index b39ca62..f2d94c8 100644
--- a/crates/mabo-go/src/definition.rs
+++ b/crates/mabo-go/src/definition.rs
@@ -561,10 +561,6 @@ impl Display for RenderLiteral<'_> {
             Literal::Float(f2) => write!(f, "{f2}"),
             Literal::String(s) => write!(f, "{s:?}"),
             Literal::Bytes(b) => {
-                if b.is_empty() {
-                    return Ok(());
-                }
-
                 f.write_str("[]byte{")?;
                 for (i, value) in b.iter().enumerate() {
                     if i > 0 {
-- 
2.43.0


From 84712ed42abb1a72f5ca8404feb3b1d06130d99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:55 +0000
Subject: [PATCH 29/31] fix: refer to Go packages by the name they are declared
 with

---
 crates/mabo-go/src/definition.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/mabo-go/src/definition.rs b/crates/mabo-go/src/definition.rs
index f2d94c8..e5a4a12 100644
--- a/crates/mabo-go/src/definition.rs
+++ b/crates/mabo-go/src/definition.rs
@@ -452,7 +452,8 @@ impl Display for RenderType<'_> {
                 if let Some(path) = path.last() {
                     write!(
                         f,
-                        "{path}.{}{}",
+                        "{}.{}{}",
+                        heck::AsSnakeCase(path),
                         heck::AsUpperCamelCase(name),
                         RenderGenericTypes(generics),
                     )
-- 
2.43.0


From 9c62c0d0b8b2852e800a392b00250cbfb6d8e27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:18 +0000
Subject: [PATCH 30/31] fix: show the declaration of an unusable import in its
 own schema

The place of the declaration was shown in the source of the importing
schema, where it points at unrelated text or beyond the end.
---
 crates/mabo-compiler/src/resolve/error.rs |  8 +++++-
 crates/mabo-compiler/src/resolve/mod.rs   | 32 ++++++++++++++++++-----
 2 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/crates/mabo-compiler/src/resolve/error.rs b/crates/mabo-compiler/src/resolve/error.rs
index 1d32dd7..ae138eb 100644
--- a/crates/mabo-compiler/src/resolve/error.rs
+++ b/crates/mabo-compiler/src/resolve/error.rs
@@ -197,7 +197,13 @@ pub enum ResolveImport {
     /// The referenced definition can't be used as type.
     #[error(transparent)]
     #[diagnostic(transparent)]
-    InvalidKind(#[from] InvalidKind),
+    InvalidKind(#[from] Box<RemoteInvalidKind>),
+}
+
+impl From<RemoteInvalidKind> for ResolveImport {
+    fn from(value: RemoteInvalidKind) -> Self {
+        Self::InvalidKind(value.into())
+    }
 }
 
 /// The referenced schema wasn't found in the list of available schemas.
diff --git a/crates/mabo-compiler/src/resolve/mod.rs b/crates/mabo-compiler/src/resolve/mod.rs
index 4d771db..8a8a7a1 100644
--- a/crates/mabo-compiler/src/resolve/mod.rs
+++ b/crates/mabo-compiler/src/resolve/mod.rs
@@ -214,16 +214,36 @@ impl Module<'_> {
                 })?;
 
             match definition.kind {
-                DeclarationKind::Alias => Err(InvalidKind {
-                    kind: "alias",
-                    declared: definition.name.span().into(),
+                DeclarationKind::Alias => Err(RemoteInvalidKind {
+                    kind: "type alias",
                     used: element.span().into(),
+                    declaration: [RemoteInvalidKindDeclaration {
+                        kind: "type alias",
+                        source_code: NamedSource::new(
+                            self.schema.path.as_ref().map_or_else(
+                                || "<unknown>".to_owned(),
+                                |p| p.display().to_string(),
+                            ),
+                            self.schema.source.to_owned(),
+                        ),
+                        used: definition.name.span().into(),
+                    }],
                 }
                 .into()),
-                DeclarationKind::Const => Err(InvalidKind {
-                    kind: "const",
-                    declared: definition.name.span().into(),
+                DeclarationKind::Const => Err(RemoteInvalidKind {
+                    kind: "constant",
                     used: element.span().into(),
+                    declaration: [RemoteInvalidKindDeclaration {
+                        kind: "constant",
+                        source_code: NamedSource::new(
+                            self.schema.path.as_ref().map_or_else(
+                                || "<unknown>".to_owned(),
+                                |p| p.display().to_string(),
+                            ),
+                            self.schema.source.to_owned(),
+                        ),
+                        used: definition.name.span().into(),
+                    }],
                 }
                 .into()),
                 DeclarationKind::Struct { generics } | DeclarationKind::Enum { generics } => {
-- 
2.43.0


From bbccb955604fa93b3269fce9e444d35c198555db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:59:22 +0000
Subject: [PATCH 31/31] fix: label the place of errors with an external cause

---
 crates/mabo-derive/src/cause.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/crates/mabo-derive/src/cause.rs b/crates/mabo-derive/src/cause.rs
index 5b285c4..ac63af4 100644
--- a/crates/mabo-derive/src/cause.rs
+++ b/crates/mabo-derive/src/cause.rs
@@ -298,7 +298,7 @@ fn expand_miette(
         let ident = &v.variant.ident;
 
         match &v.attr {
-            VariantAttributes::Error {.. } => {
+            VariantAttributes::Error { .. } | VariantAttributes::External => {
                 let fields = v
                     .fields
                     .iter()
@@ -333,9 +333,6 @@ fn expand_miette(
                     Self::#ident { #(#fields_names,)* .. } => Some(Box::new(vec![#(#fields_contents,)*].into_iter()))
                 }
             }
-            VariantAttributes::External => quote! {
-                Self::#ident { .. } => None
-            },
             VariantAttributes::Forward => quote! {
                 Self::#ident(inner) => inner.labels()
             },
-- 
2.43.0

