From d1bc6c82b9a908ed2fe07c7047ef88a344a92317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:18 +0000
Subject: [PATCH 01/28] fix: restore the reader position when a `try` field
 fails to parse

The documentation of `try` promises this, but a value which failed part-way
(an array, tuple, Vec, string, ...) left the reader in the middle of it.
---
 binread_derive/src/codegen/read_options/struct.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index e1988bd..2b11777 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -356,7 +356,14 @@ impl<'field> FieldGenerator<'field> {
         } else {
             let result = self.out;
             self.out = if self.field.do_try {
-                quote! { #result.ok() }
+                quote! {{
+                    let #SAVED_POSITION = #POS_TRAIT::stream_pos(#READER)?;
+                    let #TEMP = #result.ok();
+                    if #TEMP.is_none() {
+                        #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Start(#SAVED_POSITION))?;
+                    }
+                    #TEMP
+                }}
             } else {
                 let handle_error = debug_template::handle_error();
                 quote! { #result#handle_error? }
-- 
2.43.0


From b8231fb869be44e3eed64844af4a416177c96aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:18 +0000
Subject: [PATCH 02/28] fix: run after_parse on boxed values

A FilePtr inside a Box was never dereferenced.
---
 binread/src/binread_impls.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/binread/src/binread_impls.rs b/binread/src/binread_impls.rs
index 2a4876f..530cfb3 100644
--- a/binread/src/binread_impls.rs
+++ b/binread/src/binread_impls.rs
@@ -289,6 +289,18 @@ impl<T: BinRead> BinRead for Box<T> {
     ) -> BinResult<Self> {
         Ok(Box::new(T::read_options(reader, options, args)?))
     }
+
+    fn after_parse<R>(
+        &mut self,
+        reader: &mut R,
+        ro: &ReadOptions,
+        args: Self::Args,
+    ) -> BinResult<()>
+    where
+        R: Read + Seek,
+    {
+        (**self).after_parse(reader, ro, args)
+    }
 }
 
 impl<T: BinRead> BinRead for Option<T> {
-- 
2.43.0


From 71251bd08cb37e691f283624b1ac43bf89256e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:18 +0000
Subject: [PATCH 03/28] fix: run after_parse on the items of a Punctuated list

FilePtr items and separators were never dereferenced.
---
 binread/src/punctuated.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/binread/src/punctuated.rs b/binread/src/punctuated.rs
index bc27e50..16cf555 100644
--- a/binread/src/punctuated.rs
+++ b/binread/src/punctuated.rs
@@ -1,6 +1,7 @@
 //! A module for [`Punctuated<T, P>`](Punctuated), a series of items to parse of type T separated
 //! by punction of type `P`.
 
+use crate::error::read_options_then_after_parse;
 use crate::io::{Read, Seek};
 use crate::{BinRead, BinResult, ReadOptions};
 #[cfg(not(feature = "std"))]
@@ -70,9 +71,9 @@ impl<C: Copy + 'static, T: BinRead<Args = C>, P: BinRead<Args = ()>> Punctuated<
         let mut seperators = Vec::with_capacity(count.max(1) - 1);
 
         for i in 0..count {
-            data.push(T::read_options(reader, &options, args)?);
+            data.push(read_options_then_after_parse(reader, options, args)?);
             if i + 1 != count {
-                seperators.push(P::read_options(reader, options, ())?);
+                seperators.push(read_options_then_after_parse(reader, options, ())?);
             }
         }
 
@@ -96,8 +97,8 @@ impl<C: Copy + 'static, T: BinRead<Args = C>, P: BinRead<Args = ()>> Punctuated<
         let mut seperators = Vec::with_capacity(count);
 
         for _ in 0..count {
-            data.push(T::read_options(reader, &options, args)?);
-            seperators.push(P::read_options(reader, options, ())?);
+            data.push(read_options_then_after_parse(reader, options, args)?);
+            seperators.push(read_options_then_after_parse(reader, options, ())?);
         }
 
         Ok(Self { data, seperators })
-- 
2.43.0


From 1e9900f8341b176aed63a164f84dbdb8ea146bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:18 +0000
Subject: [PATCH 04/28] fix: do not allocate a Punctuated list from an
 unchecked count

A count read from the data panicked with a capacity overflow, or aborted the
process when memory ran out, before a single item was read.
---
 binread/src/punctuated.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/binread/src/punctuated.rs b/binread/src/punctuated.rs
index 16cf555..303f894 100644
--- a/binread/src/punctuated.rs
+++ b/binread/src/punctuated.rs
@@ -67,8 +67,9 @@ impl<C: Copy + 'static, T: BinRead<Args = C>, P: BinRead<Args = ()>> Punctuated<
             None => panic!("Missing count for Punctuated"),
         };
 
-        let mut data = Vec::with_capacity(count);
-        let mut seperators = Vec::with_capacity(count.max(1) - 1);
+        // `count` often comes from the data, so do not trust it for an allocation
+        let mut data = Vec::new();
+        let mut seperators = Vec::new();
 
         for i in 0..count {
             data.push(read_options_then_after_parse(reader, options, args)?);
@@ -93,8 +94,8 @@ impl<C: Copy + 'static, T: BinRead<Args = C>, P: BinRead<Args = ()>> Punctuated<
             None => panic!("Missing count for Punctuated"),
         };
 
-        let mut data = Vec::with_capacity(count);
-        let mut seperators = Vec::with_capacity(count);
+        let mut data = Vec::new();
+        let mut seperators = Vec::new();
 
         for _ in 0..count {
             data.push(read_options_then_after_parse(reader, options, args)?);
-- 
2.43.0


From f10f3b0f6a412bb87fef5f92e5e5766e46cbaf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:47 +0000
Subject: [PATCH 05/28] fix: do not allocate the read_bytes buffer from an
 unchecked count

A count read from the data panicked with a capacity overflow, or aborted the
process when memory ran out, before a single byte was read.
---
 binread/src/helpers.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/binread/src/helpers.rs b/binread/src/helpers.rs
index 419414f..1f51be1 100644
--- a/binread/src/helpers.rs
+++ b/binread/src/helpers.rs
@@ -3,7 +3,7 @@ use crate::{
     BinRead, BinReaderExt, BinResult, ReadOptions,
 };
 #[cfg(not(feature = "std"))]
-use alloc::{vec, vec::Vec};
+use alloc::vec::Vec;
 
 /// A helper for more efficiently mass-reading bytes
 ///
@@ -30,8 +30,14 @@ pub fn read_bytes<R: Read + Seek>(
         Some(x) => x,
         None => panic!("Missing count for read_bytes"),
     };
-    let mut buf = vec![0; count];
-    reader.read_exact(&mut buf)?;
+    // `count` often comes from the data, so do not trust it for an allocation
+    const CHUNK_SIZE: usize = 0x10000;
+    let mut buf = Vec::new();
+    while buf.len() < count {
+        let start = buf.len();
+        buf.resize(start + CHUNK_SIZE.min(count - start), 0);
+        reader.read_exact(&mut buf[start..])?;
+    }
 
     Ok(buf)
 }
-- 
2.43.0


From c85a6c48dfd67d6cdd027d130ef5d79387123529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:48 +0000
Subject: [PATCH 06/28] fix: pass the read options on in the collection helpers

`until`, `until_exclusive`, `until_eof` and `count` only passed the byte order
on, so that `offset` had no effect on the pointers they read.
---
 binread/src/helpers.rs | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/binread/src/helpers.rs b/binread/src/helpers.rs
index 1f51be1..237ddb4 100644
--- a/binread/src/helpers.rs
+++ b/binread/src/helpers.rs
@@ -1,6 +1,6 @@
 use crate::{
     io::{ErrorKind::UnexpectedEof, Read, Seek},
-    BinRead, BinReaderExt, BinResult, ReadOptions,
+    BinRead, BinResult, ReadOptions,
 };
 #[cfg(not(feature = "std"))]
 use alloc::vec::Vec;
@@ -42,6 +42,24 @@ pub fn read_bytes<R: Read + Seek>(
     Ok(buf)
 }
 
+/// Read and postprocess a single item with the options given to the parser
+fn read_item<R: Read + Seek, T: BinRead>(
+    reader: &mut R,
+    ro: &ReadOptions,
+    args: T::Args,
+) -> BinResult<T> {
+    let ro = ReadOptions {
+        #[cfg(feature = "debug_template")]
+        variable_name: None,
+        ..*ro
+    };
+
+    let mut item = T::read_options(reader, &ro, args)?;
+    item.after_parse(reader, &ro, args)?;
+
+    Ok(item)
+}
+
 /// Read items until a condition is met. The final item will be included.
 ///
 /// # Examples
@@ -70,11 +88,11 @@ where
 {
     move |reader, ro, args| {
         let mut result = Vec::new();
-        let mut last = reader.read_type_args(ro.endian, args.clone())?;
+        let mut last = read_item(reader, ro, args.clone())?;
 
         while !cond(&last) {
             result.push(last);
-            last = reader.read_type_args(ro.endian, args.clone())?;
+            last = read_item(reader, ro, args.clone())?;
         }
 
         result.push(last);
@@ -111,11 +129,11 @@ where
 {
     move |reader, ro, args| {
         let mut result = Vec::new();
-        let mut last = reader.read_type_args(ro.endian, args.clone())?;
+        let mut last = read_item(reader, ro, args.clone())?;
 
         while !cond(&last) {
             result.push(last);
-            last = reader.read_type_args(ro.endian, args.clone())?;
+            last = read_item(reader, ro, args.clone())?;
         }
 
         Ok(result.into_iter().collect())
@@ -146,13 +164,13 @@ where
     Ret: core::iter::FromIterator<T>,
 {
     let mut result = Vec::new();
-    let mut last = reader.read_type_args(ro.endian, args.clone());
+    let mut last = read_item(reader, ro, args.clone());
 
     while !matches!(&last, Err(crate::Error::Io(err)) if err.kind() == UnexpectedEof) {
         last = match last {
             Ok(x) => {
                 result.push(x);
-                reader.read_type_args(ro.endian, args.clone())
+                read_item(reader, ro, args.clone())
             }
             Err(err) => return Err(err),
         }
@@ -189,7 +207,7 @@ where
 {
     move |reader, ro, args| {
         (0..n)
-            .map(|_| reader.read_type_args(ro.endian, args.clone()))
+            .map(|_| read_item(reader, ro, args.clone()))
             .collect()
     }
 }
-- 
2.43.0


From ad473a27806412f91240e3fae4e885315c49e054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:51 +0000
Subject: [PATCH 07/28] fix: do not overflow in pad_size_to when a field moves
 backwards

A field which seeks to before its own start panicked with overflow checks on.
---
 binread_derive/src/codegen/read_options/struct.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index 2b11777..95befcd 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -436,7 +436,7 @@ fn generate_seek_after(field: &StructField) -> TokenStream {
     let pad_size_to = field.pad_size_to.as_ref().map(|pad| {
         quote! {{
             let pad = (#pad) as i64;
-            let size = (#POS_TRAIT::stream_pos(#READER)#handle_error? - #POS) as i64;
+            let size = #POS_TRAIT::stream_pos(#READER)#handle_error? as i64 - #POS as i64;
             if size < pad {
                 #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Current(pad - size))#handle_error?;
             }
-- 
2.43.0


From e3a4bae1654fd4168d72f2c6d9af07232079ce2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:52 +0000
Subject: [PATCH 08/28] fix: fail on a NullString without a terminator

The end of the data was taken for a terminator, unlike for NullWideString, so
that truncated strings were accepted and `until_eof` looped forever.
---
 binread/src/strings.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/binread/src/strings.rs b/binread/src/strings.rs
index e931961..068044f 100644
--- a/binread/src/strings.rs
+++ b/binread/src/strings.rs
@@ -20,11 +20,20 @@ impl BinRead for Vec<NonZeroU8> {
         _: &ReadOptions,
         _: Self::Args,
     ) -> BinResult<Self> {
-        reader
-            .bytes()
-            .take_while(|x| !matches!(x, Ok(0)))
-            .map(|x| Ok(x.map(|byte| unsafe { NonZeroU8::new_unchecked(byte) })?))
-            .collect()
+        let mut values = vec![];
+
+        for byte in reader.bytes() {
+            match NonZeroU8::new(byte?) {
+                Some(byte) => values.push(byte),
+                None => return Ok(values),
+            }
+        }
+
+        Err(io::Error::new(
+            io::ErrorKind::UnexpectedEof,
+            "missing null terminator",
+        )
+        .into())
     }
 }
 
-- 
2.43.0


From 09806194bf9ebda0893adef6793b5a369b9a43d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:53 +0000
Subject: [PATCH 09/28] fix: do not panic in NullString::to_string on invalid
 UTF-8

Use the same lossy conversion as into_string and NullWideString do.
---
 binread/src/strings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binread/src/strings.rs b/binread/src/strings.rs
index 068044f..d4ab7de 100644
--- a/binread/src/strings.rs
+++ b/binread/src/strings.rs
@@ -250,7 +250,7 @@ impl core::ops::Deref for NullWideString {
 
 impl ToString for NullString {
     fn to_string(&self) -> String {
-        core::str::from_utf8(&self).unwrap().to_string()
+        String::from_utf8_lossy(self).into()
     }
 }
 
-- 
2.43.0


From abd25645c99d51f158e346b87a7cbf9a1269c001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:02 +0000
Subject: [PATCH 10/28] fix: apply byte order, magic and pre_assert directives
 when map is used on a type

---
 binread_derive/src/codegen/read_options.rs   | 22 ++++++++++++++++----
 binread_derive/src/parser/top_level_attrs.rs |  4 ++--
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/binread_derive/src/codegen/read_options.rs b/binread_derive/src/codegen/read_options.rs
index ca61e22..0e44ed9 100644
--- a/binread_derive/src/codegen/read_options.rs
+++ b/binread_derive/src/codegen/read_options.rs
@@ -21,15 +21,21 @@ pub(crate) fn generate(ident: &Ident, input: &Input) -> TokenStream {
         },
         Map::Try(map) => {
             let map_err = get_map_err(POS);
+            let prelude = get_map_prelude(input);
             quote! {
+                #prelude
                 #READ_METHOD(#READER, #OPT, #ARGS).and_then(|value| {
                     #map(value)#map_err
                 })
             }
         }
-        Map::Map(map) => quote! {
-            #READ_METHOD(#READER, #OPT, #ARGS).map(#map)
-        },
+        Map::Map(map) => {
+            let prelude = get_map_prelude(input);
+            quote! {
+                #prelude
+                #READ_METHOD(#READER, #OPT, #ARGS).map(#map)
+            }
+        }
     };
 
     quote! {
@@ -90,7 +96,7 @@ impl<'input> PreludeGenerator<'input> {
 
     fn add_magic_pre_assertion(mut self) -> Self {
         let magic = get_magic(self.input.magic(), &OPT);
-        let pre_assertions = get_assertions(&self.input.pre_assertions());
+        let pre_assertions = get_assertions(self.input.pre_assertions());
         let head = self.out;
 
         self.out = quote! {
@@ -141,6 +147,14 @@ fn get_magic(magic: &Magic, options_var: &impl ToTokens) -> Option<TokenStream>
     })
 }
 
+fn get_map_prelude(input: &Input) -> TokenStream {
+    PreludeGenerator::new(input)
+        .add_imports()
+        .add_options()
+        .add_magic_pre_assertion()
+        .finish()
+}
+
 fn get_map_err(pos: IdentStr) -> TokenStream {
     quote! {
         .map_err(|e| {
diff --git a/binread_derive/src/parser/top_level_attrs.rs b/binread_derive/src/parser/top_level_attrs.rs
index ec7f8a3..bd894d8 100644
--- a/binread_derive/src/parser/top_level_attrs.rs
+++ b/binread_derive/src/parser/top_level_attrs.rs
@@ -91,11 +91,11 @@ impl Input {
         }
     }
 
-    pub(crate) fn pre_assertions(&self) -> &Vec<Assert> {
+    pub(crate) fn pre_assertions(&self) -> &[Assert] {
         match self {
             Input::Struct(s) | Input::UnitStruct(s) => &s.pre_assertions,
             Input::Enum(e) => &e.pre_assertions,
-            Input::UnitOnlyEnum(_) => unimplemented!("`Input::pre_assert()` called on unit enum"),
+            Input::UnitOnlyEnum(_) => &[],
         }
     }
 }
-- 
2.43.0


From cad05f7c83d273a6b593825095170c633b391e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:02 +0000
Subject: [PATCH 11/28] fix: honour magic, imports and pre_assert on enums with
 a repr

---
 binread_derive/src/codegen/read_options/enum.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/binread_derive/src/codegen/read_options/enum.rs b/binread_derive/src/codegen/read_options/enum.rs
index a4e59d1..75504c2 100644
--- a/binread_derive/src/codegen/read_options/enum.rs
+++ b/binread_derive/src/codegen/read_options/enum.rs
@@ -23,14 +23,22 @@ fn generate_unit_enum_repr(
 ) -> TokenStream {
     let clauses = variants.iter().map(|variant| {
         let ident = &variant.ident;
+        let pre_assertions = variant
+            .pre_assertions
+            .iter()
+            .map(|assert| &assert.condition);
         quote! {
-            if #TEMP == Self::#ident as #repr {
+            if #TEMP == Self::#ident as #repr #(&& (#pre_assertions))* {
                 Ok(Self::#ident)
             }
         }
     });
 
-    let prelude = PreludeGenerator::new(input).add_options().finish();
+    let prelude = PreludeGenerator::new(input)
+        .add_imports()
+        .add_options()
+        .add_magic_pre_assertion()
+        .finish();
 
     quote! {
         #prelude
-- 
2.43.0


From 00f9ed72f736bc4b599e5af158a8b3c078a71833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:02 +0000
Subject: [PATCH 12/28] fix: check assert directives on unit structs

---
 binread_derive/src/codegen/read_options/struct.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index 95befcd..5614b67 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -8,9 +8,15 @@ use syn::Ident;
 
 pub(super) fn generate_unit_struct(input: &Input, variant_ident: Option<&Ident>) -> TokenStream {
     let prelude = get_prelude(input);
+    let assertions = match input {
+        Input::UnitStruct(st) => st.assertions.as_slice(),
+        _ => &[],
+    };
+    let assertions = get_assertions(assertions);
     let return_type = get_return_type(variant_ident);
     quote! {
         #prelude
+        #(#assertions)*
         Ok(#return_type)
     }
 }
-- 
2.43.0


From 3d5f9a425b1880989ced543dc333c48ded663bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:40 +0000
Subject: [PATCH 13/28] fix: return an Io error when try_map returns an
 io::Error

---
 binread/src/private.rs                     | 17 +++++++++++++++++
 binread_derive/src/codegen/read_options.rs |  7 +------
 binread_derive/src/codegen/sanitization.rs |  1 +
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/binread/src/private.rs b/binread/src/private.rs
index 4126656..cdbccb4 100644
--- a/binread/src/private.rs
+++ b/binread/src/private.rs
@@ -48,6 +48,23 @@ where
     f
 }
 
+// An I/O error returned from a `try_map` function is an I/O error; any other
+// type is a custom error.
+pub fn try_map_error<Err>(pos: u64, err: Err) -> Error
+where
+    Err: core::any::Any + Sync + Send + 'static,
+{
+    let mut err = Some(err);
+    if let Some(err) = (&mut err as &mut dyn core::any::Any).downcast_mut::<Option<io::Error>>() {
+        return Error::Io(err.take().unwrap());
+    }
+
+    Error::Custom {
+        pos,
+        err: Box::new(err.unwrap()),
+    }
+}
+
 pub fn try_after_parse<Reader, ValueType, ArgType>(
     item: &mut Option<ValueType>,
     reader: &mut Reader,
diff --git a/binread_derive/src/codegen/read_options.rs b/binread_derive/src/codegen/read_options.rs
index 0e44ed9..d740e9e 100644
--- a/binread_derive/src/codegen/read_options.rs
+++ b/binread_derive/src/codegen/read_options.rs
@@ -157,12 +157,7 @@ fn get_map_prelude(input: &Input) -> TokenStream {
 
 fn get_map_err(pos: IdentStr) -> TokenStream {
     quote! {
-        .map_err(|e| {
-            #BIN_ERROR::Custom {
-                pos: #pos,
-                err: Box::new(e) as _,
-            }
-        })
+        .map_err(|e| #TRY_MAP_ERROR(#pos, e))
     }
 }
 
diff --git a/binread_derive/src/codegen/sanitization.rs b/binread_derive/src/codegen/sanitization.rs
index aea3b77..10f21de 100644
--- a/binread_derive/src/codegen/sanitization.rs
+++ b/binread_derive/src/codegen/sanitization.rs
@@ -51,6 +51,7 @@ ident_str! {
     pub(super) ASSERT = from_crate!(__private::assert);
     pub(super) ASSERT_ERROR_FN = from_crate!(__private::AssertErrorFn);
     pub(super) COERCE_FN = from_crate!(__private::coerce_fn);
+    pub(super) TRY_MAP_ERROR = from_crate!(__private::try_map_error);
     pub(super) TRY_AFTER_PARSE = from_crate!(__private::try_after_parse);
     pub(super) TEMP = "__binread_temp";
     pub(super) POS = "__binread_generated_position_temp";
-- 
2.43.0


From 143be9efd5e52ec484c345273c67148cbbb7f0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:41 +0000
Subject: [PATCH 14/28] fix: accept a closure as the try_map function of a type

---
 binread_derive/src/codegen/read_options.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binread_derive/src/codegen/read_options.rs b/binread_derive/src/codegen/read_options.rs
index d740e9e..e202df7 100644
--- a/binread_derive/src/codegen/read_options.rs
+++ b/binread_derive/src/codegen/read_options.rs
@@ -25,7 +25,7 @@ pub(crate) fn generate(ident: &Ident, input: &Input) -> TokenStream {
             quote! {
                 #prelude
                 #READ_METHOD(#READER, #OPT, #ARGS).and_then(|value| {
-                    #map(value)#map_err
+                    (#map)(value)#map_err
                 })
             }
         }
-- 
2.43.0


From 6e6131c962648b3f48c7cde107db97dc1990d29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:52 +0000
Subject: [PATCH 15/28] fix: accept a closure as the parse_with function of a
 field

---
 binread_derive/src/codegen/read_options/struct.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index 5614b67..2353152 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -345,7 +345,7 @@ impl<'field> FieldGenerator<'field> {
                 self.emit_options_vars = true;
 
                 quote! {
-                    #read_method(#READER, #options_var, #args_var.clone())
+                    (#read_method)(#READER, #options_var, #args_var.clone())
                 }
             }
         };
-- 
2.43.0


From 79b84f7b2250c70dda790fe827ccbac5d29659f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:52 +0000
Subject: [PATCH 16/28] fix: do not panic on a failing reader with
 debug_template enabled

---
 binread/src/file_ptr.rs | 2 +-
 binread/src/strings.rs  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/binread/src/file_ptr.rs b/binread/src/file_ptr.rs
index a7e0aa5..a82a48a 100644
--- a/binread/src/file_ptr.rs
+++ b/binread/src/file_ptr.rs
@@ -84,7 +84,7 @@ impl<Ptr: BinRead<Args = ()> + IntoSeekFrom, BR: BinRead> BinRead for FilePtr<Pt
         let options = &{
             let mut options = *options;
 
-            let pos = reader.stream_pos().unwrap();
+            let pos = reader.stream_pos()?;
             let type_name = &core::any::type_name::<Ptr>();
             if let Some(name) = options.variable_name {
                 binary_template::write_named(
diff --git a/binread/src/strings.rs b/binread/src/strings.rs
index d4ab7de..bda1296 100644
--- a/binread/src/strings.rs
+++ b/binread/src/strings.rs
@@ -164,7 +164,7 @@ impl BinRead for NullWideString {
         #[cfg(feature = "debug_template")]
         let options = {
             let mut options = *options;
-            let pos = reader.stream_pos().unwrap();
+            let pos = reader.stream_pos()?;
 
             if !options.dont_output_to_template {
                 binary_template::write_named(
@@ -197,7 +197,7 @@ impl BinRead for NullString {
     ) -> BinResult<Self> {
         #[cfg(feature = "debug_template")]
         {
-            let pos = reader.stream_pos().unwrap();
+            let pos = reader.stream_pos()?;
 
             if !options.dont_output_to_template {
                 binary_template::write_named(
-- 
2.43.0


From 698cd20d4e4a2191534dc8cdf37eac99660a17b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:05 +0000
Subject: [PATCH 17/28] fix: accept magic on calculated and default fields

---
 binread_derive/src/codegen/read_options/struct.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index 2353152..c4ea1bc 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -322,6 +322,7 @@ impl<'field> FieldGenerator<'field> {
     fn prefix_magic(mut self, options_var: &Ident) -> Self {
         if let Some(magic) = get_magic(&self.field.magic, options_var) {
             let tail = self.out;
+            self.emit_options_vars = true;
             self.out = quote! {
                 #magic
                 #tail
-- 
2.43.0


From a58875602b6b80332b5a7f09e42b469f0db0659d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:05 +0000
Subject: [PATCH 18/28] fix: seek the no_std Cursor relative to the end and
 without overflow

---
 binread/src/io/cursor.rs | 43 +++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/binread/src/io/cursor.rs b/binread/src/io/cursor.rs
index c76fbc8..aa77c8e 100644
--- a/binread/src/io/cursor.rs
+++ b/binread/src/io/cursor.rs
@@ -51,33 +51,30 @@ impl<T: AsRef<[u8]>> Read for Cursor<T> {
 
 impl<T: AsRef<[u8]>> Seek for Cursor<T> {
     fn seek(&mut self, pos: SeekFrom) -> Result<u64> {
-        match pos {
-            SeekFrom::Current(x) => {
-                if (self.pos as i64) + x < 0 {
-                    Err(Error::new(
-                        ErrorKind::InvalidInput,
-                        "invalid seek to a negative or overflowing position",
-                    ))
-                } else {
-                    self.pos = ((self.pos as i64) + x) as u64;
-                    Ok(self.pos)
-                }
-            }
+        let (base, offset) = match pos {
             SeekFrom::Start(x) => {
                 self.pos = x;
-                Ok(self.pos)
+                return Ok(self.pos);
             }
-            SeekFrom::End(x) => {
-                let end = self.inner.as_ref().len() as i64;
-                if (self.pos as i64) + end + x < 0 {
-                    Err(Error::new(
-                        ErrorKind::InvalidInput,
-                        "invalid seek to a negative or overflowing position",
-                    ))
-                } else {
-                    Ok(self.pos)
-                }
+            SeekFrom::Current(x) => (self.pos, x),
+            SeekFrom::End(x) => (self.inner.as_ref().len() as u64, x),
+        };
+
+        let new_pos = if offset >= 0 {
+            base.checked_add(offset as u64)
+        } else {
+            base.checked_sub((offset as u64).wrapping_neg())
+        };
+
+        match new_pos {
+            Some(pos) => {
+                self.pos = pos;
+                Ok(self.pos)
             }
+            None => Err(Error::new(
+                ErrorKind::InvalidInput,
+                "invalid seek to a negative or overflowing position",
+            )),
         }
     }
 }
-- 
2.43.0


From 4572a3485d7dcbd0eb871fdbb53b8573a37fe23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:23 +0000
Subject: [PATCH 19/28] fix: accept raw identifiers as field names

---
 binread_derive/src/codegen/sanitization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binread_derive/src/codegen/sanitization.rs b/binread_derive/src/codegen/sanitization.rs
index 10f21de..8fdb443 100644
--- a/binread_derive/src/codegen/sanitization.rs
+++ b/binread_derive/src/codegen/sanitization.rs
@@ -59,7 +59,7 @@ ident_str! {
 }
 
 pub(crate) fn make_ident(ident: &Ident, kind: &str) -> Ident {
-    format_ident!("__binread_generated_{}_{}", kind, ident.to_string())
+    format_ident!("__binread_generated_{}_{}", kind, ident)
 }
 
 /// A string wrapper that converts the str to a $path `TokenStream`, allowing
-- 
2.43.0


From 69230f6c5b891abf0c4bf8f5f7290eb4f38c05e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:23 +0000
Subject: [PATCH 20/28] fix: let try_map on a type use an import named value

---
 binread_derive/src/codegen/read_options.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binread_derive/src/codegen/read_options.rs b/binread_derive/src/codegen/read_options.rs
index e202df7..a4cddbd 100644
--- a/binread_derive/src/codegen/read_options.rs
+++ b/binread_derive/src/codegen/read_options.rs
@@ -24,8 +24,8 @@ pub(crate) fn generate(ident: &Ident, input: &Input) -> TokenStream {
             let prelude = get_map_prelude(input);
             quote! {
                 #prelude
-                #READ_METHOD(#READER, #OPT, #ARGS).and_then(|value| {
-                    (#map)(value)#map_err
+                #READ_METHOD(#READER, #OPT, #ARGS).and_then(|#TEMP| {
+                    (#map)(#TEMP)#map_err
                 })
             }
         }
-- 
2.43.0


From 30ced75831d98d0dd291e022002ca0fcbbd5d872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:52 +0000
Subject: [PATCH 21/28] fix: do not panic on an alignment of zero or a huge
 padding from the data

Alignments and size paddings may be computed from fields; zero and extreme
values panicked with a division by zero or an arithmetic overflow.
---
 binread_derive/src/codegen/read_options/struct.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index c4ea1bc..08c95c4 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -443,9 +443,9 @@ fn generate_seek_after(field: &StructField) -> TokenStream {
     let pad_size_to = field.pad_size_to.as_ref().map(|pad| {
         quote! {{
             let pad = (#pad) as i64;
-            let size = #POS_TRAIT::stream_pos(#READER)#handle_error? as i64 - #POS as i64;
+            let size = #POS_TRAIT::stream_pos(#READER)#handle_error?.wrapping_sub(#POS) as i64;
             if size < pad {
-                #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Current(pad - size))#handle_error?;
+                #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Current(pad.saturating_sub(size)))#handle_error?;
             }
         }}
     });
@@ -501,7 +501,10 @@ fn map_align(align: &TokenStream) -> TokenStream {
     quote! {{
         let align = (#align) as i64;
         let pos = #POS_TRAIT::stream_pos(#READER)#handle_error? as i64;
-        #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Current((align - (pos % align)) % align))#handle_error?;
+        if align != 0 {
+            let skip = align.wrapping_sub(pos.wrapping_rem(align)).wrapping_rem(align);
+            #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Current(skip))#handle_error?;
+        }
     }}
 }
 
-- 
2.43.0


From 4e3b34e2f5ccad09d8b2fe76c3af28633c895a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:58 +0000
Subject: [PATCH 22/28] fix: write the byte order of native-endian reads to the
 debug template

---
 binread/src/binary_template.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/binread/src/binary_template.rs b/binread/src/binary_template.rs
index 1c0d6f1..ed003f6 100644
--- a/binread/src/binary_template.rs
+++ b/binread/src/binary_template.rs
@@ -76,7 +76,8 @@ pub fn write_named(endian: Endian, pos: u64, type_name: &str, var_name: &str) {
     match endian {
         Endian::Big => writeln!(*file, "BigEndian();"),
         Endian::Little => writeln!(*file, "LittleEndian();"),
-        _ => writeln!(*file),
+        Endian::Native if cfg!(target_endian = "big") => writeln!(*file, "BigEndian();"),
+        Endian::Native => writeln!(*file, "LittleEndian();"),
     };
 
     let color_index = CURRENT_VAR_NUM.fetch_add(1, Ordering::SeqCst) & 0x3f;
@@ -152,7 +153,8 @@ pub fn write_vec_named(endian: Endian, pos: u64, type_name: &str, count: usize,
     match endian {
         Endian::Big => writeln!(*file, "BigEndian();"),
         Endian::Little => writeln!(*file, "LittleEndian();"),
-        _ => writeln!(*file),
+        Endian::Native if cfg!(target_endian = "big") => writeln!(*file, "BigEndian();"),
+        Endian::Native => writeln!(*file, "LittleEndian();"),
     };
 
     let color_index = CURRENT_VAR_NUM.fetch_add(1, Ordering::SeqCst) & 0x3f;
-- 
2.43.0


From 0f88876c8df976f201e8e1fab3cf413168489762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:58 +0000
Subject: [PATCH 23/28] fix: name vectors after their field in the debug
 template

---
 binread/src/binread_impls.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/binread/src/binread_impls.rs b/binread/src/binread_impls.rs
index 530cfb3..81bcc2b 100644
--- a/binread/src/binread_impls.rs
+++ b/binread/src/binread_impls.rs
@@ -104,7 +104,11 @@ impl<C: Copy + 'static, B: BinRead<Args = C>> BinRead for Vec<B> {
                 type_name
             };
 
-            binary_template::write_vec(options.endian, pos, type_name, count);
+            if let Some(name) = options.variable_name {
+                binary_template::write_vec_named(options.endian, pos, type_name, count, name);
+            } else {
+                binary_template::write_vec(options.endian, pos, type_name, count);
+            }
 
             options.dont_output_to_template = true;
         }
-- 
2.43.0


From 60158135968e33c885e80a683afe4ebe60b2b8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:18 +0000
Subject: [PATCH 24/28] fix: do not depend on the format macro in scope with
 debug_template

---
 binread_derive/src/codegen/read_options/debug_template.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/binread_derive/src/codegen/read_options/debug_template.rs b/binread_derive/src/codegen/read_options/debug_template.rs
index 1e3d4cf..793cdae 100644
--- a/binread_derive/src/codegen/read_options/debug_template.rs
+++ b/binread_derive/src/codegen/read_options/debug_template.rs
@@ -24,7 +24,10 @@ pub(super) fn handle_error() -> TokenStream {
         let write_end_struct = end();
         quote! {
             .map_err(|e| {
-                #WRITE_COMMENT(&format!("Error: {:?}", e));
+                #WRITE_COMMENT(&{
+                    extern crate alloc;
+                    alloc::format!("Error: {:?}", e)
+                });
                 #write_end_struct
                 e
             })
-- 
2.43.0


From 90daab1ff883a2513c76a562cb1d8e206b2108d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:44 +0000
Subject: [PATCH 25/28] fix: pointers which do not fit an i64 wrapped around to
 another place

---
 binread/src/file_ptr.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/binread/src/file_ptr.rs b/binread/src/file_ptr.rs
index a82a48a..d8115a9 100644
--- a/binread/src/file_ptr.rs
+++ b/binread/src/file_ptr.rs
@@ -26,6 +26,7 @@
 //!
 //! Use `offset` to change what the pointer is relative to (default: beginning of reader).
 use super::*;
+use core::convert::TryFrom;
 use core::fmt;
 use core::ops::{Deref, DerefMut};
 
@@ -162,7 +163,10 @@ macro_rules! impl_into_seek_from {
         $(
             impl IntoSeekFrom for $t {
                 fn into_seek_from(self) -> SeekFrom {
-                    SeekFrom::Current(self as i64)
+                    // A value which is no `i64` must not wrap around to another place
+                    #[allow(unused_comparisons)]
+                    let limit = if self < 0 { i64::MIN } else { i64::MAX };
+                    SeekFrom::Current(i64::try_from(self).unwrap_or(limit))
                 }
             }
         )*
-- 
2.43.0


From 5132cb561af11925ddc7e4157eddf54bfad04bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:44 +0000
Subject: [PATCH 26/28] fix: deriving for a type with a parameter named R did
 not compile

---
 binread_derive/src/codegen/mod.rs          | 4 ++--
 binread_derive/src/codegen/sanitization.rs | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/binread_derive/src/codegen/mod.rs b/binread_derive/src/codegen/mod.rs
index 0d8d711..613f8fe 100644
--- a/binread_derive/src/codegen/mod.rs
+++ b/binread_derive/src/codegen/mod.rs
@@ -33,8 +33,8 @@ pub(crate) fn generate_impl(
         impl #impl_generics #TRAIT_NAME for #name #ty_generics #where_clause {
             type Args = #arg_type;
 
-            fn read_options<R: #READ_TRAIT + #SEEK_TRAIT>
-                (#READER: &mut R, #OPT: &#OPTIONS, #ARGS: Self::Args)
+            fn read_options<#READER_TYPE: #READ_TRAIT + #SEEK_TRAIT>
+                (#READER: &mut #READER_TYPE, #OPT: &#OPTIONS, #ARGS: Self::Args)
                 -> #BIN_RESULT<Self>
             {
                 #read_opt_impl
diff --git a/binread_derive/src/codegen/sanitization.rs b/binread_derive/src/codegen/sanitization.rs
index 8fdb443..e6b5b3b 100644
--- a/binread_derive/src/codegen/sanitization.rs
+++ b/binread_derive/src/codegen/sanitization.rs
@@ -44,6 +44,7 @@ ident_str! {
     pub(super) READ_METHOD = from_trait!(read_options);
     pub(super) AFTER_PARSE = from_trait!(after_parse);
     pub(super) READER = "__binread_generated_var_reader";
+    pub(super) READER_TYPE = "__BinreadGeneratedReader";
     pub(super) OPT = "__binread_generated_var_options";
     pub(super) ARGS = "__binread_generated_var_arguments";
     pub(super) SAVED_POSITION = "__binread_generated_saved_position";
-- 
2.43.0


From e5357484e56e2cccc1a84a06b1d709b20a9c9fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:15 +0000
Subject: [PATCH 27/28] fix: no deprecation warnings from the generated code
 for deprecated fields and types

---
 binread_derive/src/codegen/mod.rs | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/binread_derive/src/codegen/mod.rs b/binread_derive/src/codegen/mod.rs
index 613f8fe..6cb20fa 100644
--- a/binread_derive/src/codegen/mod.rs
+++ b/binread_derive/src/codegen/mod.rs
@@ -28,8 +28,15 @@ pub(crate) fn generate_impl(
 
     let name = &derive_input.ident;
     let (impl_generics, ty_generics, where_clause) = derive_input.generics.split_for_impl();
+    // The code below names the type and its fields, which is not what their deprecation is about
+    let allow_deprecated = if has_deprecated(derive_input) {
+        quote! { #[allow(deprecated)] }
+    } else {
+        quote! {}
+    };
     quote! {
         #[allow(non_snake_case)]
+        #allow_deprecated
         impl #impl_generics #TRAIT_NAME for #name #ty_generics #where_clause {
             type Args = #arg_type;
 
@@ -42,3 +49,24 @@ pub(crate) fn generate_impl(
         }
     }
 }
+
+/// Whether the type, or anything in it, is marked as deprecated
+fn has_deprecated(derive_input: &syn::DeriveInput) -> bool {
+    fn any(attrs: &[syn::Attribute]) -> bool {
+        attrs.iter().any(|attr| attr.path.is_ident("deprecated"))
+    }
+
+    fn any_field(fields: &syn::Fields) -> bool {
+        fields.iter().any(|field| any(&field.attrs))
+    }
+
+    any(&derive_input.attrs)
+        || match &derive_input.data {
+            syn::Data::Struct(data) => any_field(&data.fields),
+            syn::Data::Enum(data) => data
+                .variants
+                .iter()
+                .any(|variant| any(&variant.attrs) || any_field(&variant.fields)),
+            syn::Data::Union(_) => false,
+        }
+}
-- 
2.43.0


From 49c58e6c2518054632dcd25d50ff166a239b8590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:02 +0000
Subject: [PATCH 28/28] fix: do not let counts which do not fit a usize wrap
 around

---
 binread/src/private.rs                     | 10 ++++++++++
 binread_derive/src/codegen/read_options.rs |  2 +-
 binread_derive/src/codegen/sanitization.rs |  1 +
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/binread/src/private.rs b/binread/src/private.rs
index cdbccb4..06b0dd5 100644
--- a/binread/src/private.rs
+++ b/binread/src/private.rs
@@ -34,6 +34,16 @@ where
     }
 }
 
+// A count which does not fit a `usize` is more than there can ever be items;
+// it must not wrap around to a small one.
+pub fn count(count: u128) -> usize {
+    if count > usize::MAX as u128 {
+        usize::MAX
+    } else {
+        count as usize
+    }
+}
+
 // This validates the map function return value by trying to coerce it into
 // a function with the expected return type. If this is not done, the
 // compiler will emit the diagnostic on the `#[derive(BinRead)]` attribute
diff --git a/binread_derive/src/codegen/read_options.rs b/binread_derive/src/codegen/read_options.rs
index a4cddbd..09529cc 100644
--- a/binread_derive/src/codegen/read_options.rs
+++ b/binread_derive/src/codegen/read_options.rs
@@ -179,7 +179,7 @@ impl ReadOptionsGenerator {
             let head = self.out;
             self.out = quote! {
                 #head
-                #TEMP.count = Some((#count) as usize);
+                #TEMP.count = Some(#COUNT((#count) as u128));
             };
         }
 
diff --git a/binread_derive/src/codegen/sanitization.rs b/binread_derive/src/codegen/sanitization.rs
index e6b5b3b..3894f10 100644
--- a/binread_derive/src/codegen/sanitization.rs
+++ b/binread_derive/src/codegen/sanitization.rs
@@ -54,6 +54,7 @@ ident_str! {
     pub(super) COERCE_FN = from_crate!(__private::coerce_fn);
     pub(super) TRY_MAP_ERROR = from_crate!(__private::try_map_error);
     pub(super) TRY_AFTER_PARSE = from_crate!(__private::try_after_parse);
+    pub(super) COUNT = from_crate!(__private::count);
     pub(super) TEMP = "__binread_temp";
     pub(super) POS = "__binread_generated_position_temp";
     pub(super) ERROR_BASKET = "__binread_generated_error_basket";
-- 
2.43.0

