From 25bb1fdf12ba36d0fdac31c70a6a1dafaaf01cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:17 +0000
Subject: [PATCH 01/29] fix: setting a dynamic struct field twice no longer
 lists the field twice

---
 crates/mirror-mirror/src/struct_.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/mirror-mirror/src/struct_.rs b/crates/mirror-mirror/src/struct_.rs
index d45c974..164de40 100644
--- a/crates/mirror-mirror/src/struct_.rs
+++ b/crates/mirror-mirror/src/struct_.rs
@@ -74,8 +74,9 @@ impl StructValue {
 
     pub fn set_field(&mut self, name: impl Into<String>, value: impl Into<Value>) {
         let name = name.into();
-        self.field_names.push(name.clone());
-        self.fields.insert(name, value.into());
+        if self.fields.insert(name.clone(), value.into()).is_none() {
+            self.field_names.push(name);
+        }
     }
 }
 
-- 
2.43.0


From 4420e655cdf0a34f468767089298d44b95850220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:17 +0000
Subject: [PATCH 02/29] fix: mutable iteration over dynamic struct fields
 follows insertion order

---
 crates/mirror-mirror/src/struct_.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/mirror-mirror/src/struct_.rs b/crates/mirror-mirror/src/struct_.rs
index 164de40..1279955 100644
--- a/crates/mirror-mirror/src/struct_.rs
+++ b/crates/mirror-mirror/src/struct_.rs
@@ -144,10 +144,16 @@ impl Struct for StructValue {
     }
 
     fn fields_mut(&mut self) -> PairIterMut<'_> {
-        let iter = self
+        // yield the fields in the same order as `fields`
+        let mut fields = self
             .fields
             .iter_mut()
-            .map(|(key, value)| (&**key, value.as_reflect_mut()));
+            .map(|(key, value)| (&**key, value))
+            .collect::<BTreeMap<&str, &mut Value>>();
+        let iter = self.field_names.iter().filter_map(move |name| {
+            let (name, value) = fields.remove_entry(&**name)?;
+            Some((name, value.as_reflect_mut()))
+        });
         Box::new(iter)
     }
 
-- 
2.43.0


From fa9d3e1c6e73bc315a9df35c4c8324d0113aed5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:17 +0000
Subject: [PATCH 03/29] fix: struct and enum values inside a Value can be
 downcast

---
 crates/mirror-mirror/src/value.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/mirror-mirror/src/value.rs b/crates/mirror-mirror/src/value.rs
index 34808da..7dba0b4 100644
--- a/crates/mirror-mirror/src/value.rs
+++ b/crates/mirror-mirror/src/value.rs
@@ -195,11 +195,11 @@ impl Reflect for Value {
     }
 
     fn as_any(&self) -> &dyn Any {
-        for_each_variant!(self, inner => inner)
+        for_each_variant!(self, inner => Reflect::as_any(inner))
     }
 
     fn as_any_mut(&mut self) -> &mut dyn Any {
-        for_each_variant!(self, inner => inner)
+        for_each_variant!(self, inner => Reflect::as_any_mut(inner))
     }
 
     fn as_reflect(&self) -> &dyn Reflect {
-- 
2.43.0


From 782bc774a6bb8ce350265f9ba73923abdb1652c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:17 +0000
Subject: [PATCH 04/29] fix: from_reflect_with on a tuple struct field may be
 followed by more fields

---
 crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
index 07d0893..e676fdf 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
@@ -211,7 +211,7 @@ fn expand_from_reflect(
                     #field_index: {
                         let value = tuple_struct.field_at(#field_index)?;
                         #from_reflect_with(value)?
-                    }
+                    },
                 }
             } else if attrs.clone_opt_out {
                 quote_spanned! {span=>
-- 
2.43.0


From 9922cfdab7a03eb1e44597033a398f00b5d67157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:11 +0000
Subject: [PATCH 05/29] fix: skipped tuple and variant fields no longer leave
 gaps in field positions

---
 .../src/derive_reflect/enum_.rs               | 19 ++++++++------
 .../src/derive_reflect/tuple_struct.rs        | 25 +++++++++++--------
 2 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
index d0739c3..a2aee69 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
@@ -153,7 +153,7 @@ fn expand_reflect(
                     }
                 }
                 FieldsData::Unnamed(fields) => {
-                    let set_fields = fields.iter().enumerate().filter(filter_out_skipped).map(
+                    let set_fields = fields.iter().filter(filter_out_skipped).enumerate().map(
                         |(index, field)| {
                             let ident = &field.fake_ident;
                             quote! {
@@ -406,12 +406,15 @@ fn expand_from_reflect(
                 }
             }
             FieldsData::Unnamed(fields) => {
-                let set_fields = fields.iter().enumerate().map(|(idx, field)| {
+                let mut positions = 0_usize..;
+                let set_fields = fields.iter().map(|field| {
                     if field.skip() {
                         quote! {
                             ::core::default::Default::default(),
                         }
                     } else {
+                        // skipped fields don't have a position
+                        let idx = positions.next();
                         let ty = &field.ty;
                         if let Some(from_reflect_with) = field.from_reflect_with() {
                             quote! {
@@ -630,7 +633,7 @@ fn expand_enum(
                 match &variant.fields {
                     FieldsData::Named(fields) => {
                         let return_if_index_matches =
-                            fields.iter().enumerate().filter(filter_out_skipped).map(
+                            fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
                                     let field_name = &field.ident;
                                     quote! {
@@ -649,7 +652,7 @@ fn expand_enum(
                     }
                     FieldsData::Unnamed(fields) => {
                         let return_if_index_matches =
-                            fields.iter().enumerate().filter(filter_out_skipped).map(
+                            fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
                                     let field_name = &field.fake_ident;
                                     quote! {
@@ -694,7 +697,7 @@ fn expand_enum(
                 match &variant.fields {
                     FieldsData::Named(fields) => {
                         let return_if_index_matches =
-                            fields.iter().enumerate().filter(filter_out_skipped).map(
+                            fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
                                     let field_name = &field.ident;
                                     quote! {
@@ -713,7 +716,7 @@ fn expand_enum(
                     }
                     FieldsData::Unnamed(fields) => {
                         let return_if_index_matches =
-                            fields.iter().enumerate().filter(filter_out_skipped).map(
+                            fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
                                     let field_name = &field.fake_ident;
                                     quote! {
@@ -870,7 +873,7 @@ fn expand_enum(
                 match &variant.fields {
                     FieldsData::Named(fields) => {
                         let return_if_index_matches =
-                            fields.iter().enumerate().filter(filter_out_skipped).map(
+                            fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
                                     let field_name = &field.ident;
                                     quote! {
@@ -889,7 +892,7 @@ fn expand_enum(
                     }
                     FieldsData::Unnamed(fields) => {
                         let return_if_index_matches =
-                            fields.iter().enumerate().filter(filter_out_skipped).map(
+                            fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
                                     let field_name = &field.fake_ident;
                                     quote! {
diff --git a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
index e676fdf..b922b7a 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
@@ -91,10 +91,11 @@ fn expand_reflect(
             .iter()
             .enumerate()
             .filter(field_attrs.filter_out_skipped_unnamed())
-            .map(|(idx, _)| {
+            .enumerate()
+            .map(|(position, _)| {
                 quote! {
-                    if let Some(new_value) = tuple_struct.field_at(#idx) {
-                        self.field_at_mut(#idx).unwrap().patch(new_value);
+                    if let Some(new_value) = tuple_struct.field_at(#position) {
+                        self.field_at_mut(#position).unwrap().patch(new_value);
                     }
                 }
             });
@@ -200,6 +201,8 @@ fn expand_from_reflect(
                 index: idx as u32,
                 span: field.span(),
             };
+            // skipped fields don't have a position
+            let position = (0..idx).filter(|idx| !field_attrs.skip(idx)).count();
             let ty = &field.ty;
             let span = ty.span();
             if field_attrs.skip(&idx) {
@@ -209,21 +212,21 @@ fn expand_from_reflect(
             } else if let Some(from_reflect_with) = field_attrs.from_reflect_with(&idx) {
                 quote_spanned! {span=>
                     #field_index: {
-                        let value = tuple_struct.field_at(#field_index)?;
+                        let value = tuple_struct.field_at(#position)?;
                         #from_reflect_with(value)?
                     },
                 }
             } else if attrs.clone_opt_out {
                 quote_spanned! {span=>
                     #field_index: {
-                        let value = tuple_struct.field_at(#field_index)?;
+                        let value = tuple_struct.field_at(#position)?;
                         <#ty as FromReflect>::from_reflect(value)?
                     },
                 }
             } else {
                 quote_spanned! {span=>
                     #field_index: {
-                        let value = tuple_struct.field_at(#field_index)?;
+                        let value = tuple_struct.field_at(#position)?;
                         if let Some(value) = value.downcast_ref::<#ty>() {
                             value.to_owned()
                         } else {
@@ -269,13 +272,14 @@ fn expand_tuple_struct(
             .iter()
             .enumerate()
             .filter(field_attrs.filter_out_skipped_unnamed())
-            .map(|(idx, field)| {
+            .enumerate()
+            .map(|(position, (idx, field))| {
                 let field_index = Index {
                     index: idx as u32,
                     span: field.span(),
                 };
                 quote! {
-                    #idx => Some(self.#field_index.as_reflect()),
+                    #position => Some(self.#field_index.as_reflect()),
                 }
             });
 
@@ -294,13 +298,14 @@ fn expand_tuple_struct(
             .iter()
             .enumerate()
             .filter(field_attrs.filter_out_skipped_unnamed())
-            .map(|(idx, field)| {
+            .enumerate()
+            .map(|(position, (idx, field))| {
                 let field_index = Index {
                     index: idx as u32,
                     span: field.span(),
                 };
                 quote! {
-                    #idx => Some(self.#field_index.as_reflect_mut()),
+                    #position => Some(self.#field_index.as_reflect_mut()),
                 }
             });
 
-- 
2.43.0


From cbcd7cbc9fd91a229e81041ccbd45f40765c68cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:28 +0000
Subject: [PATCH 06/29] fix: enum variant fields cannot shadow names used by
 the derived code

---
 .../src/derive_reflect/enum_.rs               | 69 ++++++++++---------
 1 file changed, 37 insertions(+), 32 deletions(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
index a2aee69..1afc05b 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
@@ -1,5 +1,3 @@
-use alloc::borrow::Cow;
-
 use proc_macro2::TokenStream;
 use quote::quote;
 use syn::DataEnum;
@@ -135,11 +133,11 @@ fn expand_reflect(
             match &variant.fields {
                 FieldsData::Named(fields) => {
                     let set_fields = fields.iter().filter(filter_out_skipped).map(|field| {
-                        let ident = field.ident;
-                        let ident_string = stringify(ident);
+                        let ident_string = stringify(field.ident);
+                        let binding = &field.binding;
                         quote! {
                             if let Some(new_value) = enum_.field(#ident_string) {
-                                #ident.patch(new_value);
+                                #binding.patch(new_value);
                             }
                         }
                     });
@@ -228,10 +226,10 @@ fn expand_reflect(
             match &variant.fields {
                 FieldsData::Named(fields) => {
                     let set_fields = fields.iter().filter(filter_out_skipped).map(|field| {
-                        let ident = &field.ident;
-                        let ident_string = stringify(ident);
+                        let ident_string = stringify(field.ident);
+                        let binding = &field.binding;
                         quote! {
-                            value.set_struct_field(#ident_string, #ident.to_value());
+                            value.set_struct_field(#ident_string, #binding.to_value());
                         }
                     });
 
@@ -538,11 +536,11 @@ fn expand_enum(
 
                     let return_if_name_matches =
                         fields.iter().filter(filter_out_skipped).map(|field| {
-                            let ident = &field.ident;
-                            let ident_string = stringify(ident);
+                            let ident_string = stringify(field.ident);
+                            let binding = &field.binding;
                             quote! {
                                 if name == #ident_string {
-                                    return Some(#ident);
+                                    return Some(#binding);
                                 }
                             }
                         });
@@ -586,11 +584,11 @@ fn expand_enum(
 
                     let return_if_name_matches =
                         fields.iter().filter(filter_out_skipped).map(|field| {
-                            let ident = &field.ident;
-                            let ident_string = stringify(ident);
+                            let ident_string = stringify(field.ident);
+                            let binding = &field.binding;
                             quote! {
                                 if name == #ident_string {
-                                    return Some(#ident);
+                                    return Some(#binding);
                                 }
                             }
                         });
@@ -635,10 +633,10 @@ fn expand_enum(
                         let return_if_index_matches =
                             fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
-                                    let field_name = &field.ident;
+                                    let binding = &field.binding;
                                     quote! {
                                         if #idx == index {
-                                            return Some(#field_name.as_reflect());
+                                            return Some(#binding.as_reflect());
                                         }
                                     }
                                 },
@@ -699,10 +697,10 @@ fn expand_enum(
                         let return_if_index_matches =
                             fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
-                                    let field_name = &field.ident;
+                                    let binding = &field.binding;
                                     quote! {
                                         if #idx == index {
-                                            return Some(#field_name.as_reflect_mut());
+                                            return Some(#binding.as_reflect_mut());
                                         }
                                     }
                                 },
@@ -770,10 +768,10 @@ fn expand_enum(
             match &variant.fields {
                 FieldsData::Named(fields) => {
                     let code_for_fields = fields.iter().filter(filter_out_skipped).map(|field| {
-                        let ident = &field.ident;
-                        let field = stringify(ident);
+                        let name = stringify(field.ident);
+                        let binding = &field.binding;
                         quote! {
-                            (#field, #ident.as_reflect_mut()),
+                            (#name, #binding.as_reflect_mut()),
                         }
                     });
 
@@ -970,8 +968,14 @@ impl<'a> VariantData<'a> {
                                 let ident = field.ident.as_ref().unwrap();
                                 let ty = &field.ty;
                                 let attrs = InnerAttrs::parse(&field.attrs)?;
+                                let binding = quote::format_ident!("field_{ident}");
 
-                                Ok(NamedField { ident, ty, attrs })
+                                Ok(NamedField {
+                                    ident,
+                                    binding,
+                                    ty,
+                                    attrs,
+                                })
                             })
                             .collect::<syn::Result<Vec<_>>>()?;
 
@@ -1013,17 +1017,16 @@ impl<'a> VariantData<'a> {
 }
 
 impl<'a> VariantData<'a> {
-    fn field_names<'this>(&'this self) -> Box<dyn Iterator<Item = Cow<'a, Ident>> + 'this> {
+    fn field_names<'this>(&'this self) -> Box<dyn Iterator<Item = TokenStream> + 'this> {
         match &self.fields {
-            FieldsData::Named(fields) => {
-                Box::new(fields.iter().map(|field| Cow::Borrowed(field.ident)))
-            }
-            FieldsData::Unnamed(fields) => Box::new(
-                fields
-                    .iter()
-                    .enumerate()
-                    .map(|(index, _)| Cow::Owned(quote::format_ident!("field_{index}"))),
-            ),
+            FieldsData::Named(fields) => Box::new(fields.iter().map(|field| {
+                let NamedField { ident, binding, .. } = field;
+                quote! { #ident: #binding }
+            })),
+            FieldsData::Unnamed(fields) => Box::new(fields.iter().map(|field| {
+                let ident = &field.fake_ident;
+                quote! { #ident }
+            })),
             FieldsData::Unit => Box::new(core::iter::empty()),
         }
     }
@@ -1037,6 +1040,8 @@ enum FieldsData<'a> {
 
 struct NamedField<'a> {
     ident: &'a Ident,
+    // what the field is bound to in patterns, so it cannot shadow anything in the generated code
+    binding: Ident,
     ty: &'a Type,
     attrs: InnerAttrs,
 }
-- 
2.43.0


From 9ab11d1b047a115ab900b573d16a2e2463c43106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:28 +0000
Subject: [PATCH 07/29] fix: arrays can be built from arrays and patched with
 their own value

---
 .../mirror-mirror/src/foreign_impls/array.rs  | 26 ++++++++++++++-----
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/crates/mirror-mirror/src/foreign_impls/array.rs b/crates/mirror-mirror/src/foreign_impls/array.rs
index 5dcec66..ce4d007 100644
--- a/crates/mirror-mirror/src/foreign_impls/array.rs
+++ b/crates/mirror-mirror/src/foreign_impls/array.rs
@@ -44,11 +44,15 @@ where
     }
 
     fn patch(&mut self, value: &dyn Reflect) {
-        if let Some(array) = value.reflect_ref().as_array() {
-            for (idx, new_value) in array.iter().enumerate() {
-                if let Some(value) = self.get_mut(idx) {
-                    value.patch(new_value);
-                }
+        let new_values = match value.reflect_ref() {
+            ReflectRef::Array(array) => array.iter(),
+            // `to_value` represents arrays as lists
+            ReflectRef::List(list) => list.iter(),
+            _ => return,
+        };
+        for (idx, new_value) in new_values.enumerate() {
+            if let Some(value) = self.get_mut(idx) {
+                value.patch(new_value);
             }
         }
     }
@@ -108,7 +112,17 @@ where
     T: FromReflect + DescribeType,
 {
     fn from_reflect(reflect: &dyn Reflect) -> Option<Self> {
-        Vec::<T>::from_reflect(reflect)?.try_into().ok()
+        let values = match reflect.reflect_ref() {
+            ReflectRef::Array(array) => array.iter(),
+            // `to_value` represents arrays as lists
+            ReflectRef::List(list) => list.iter(),
+            _ => return None,
+        };
+        values
+            .map(T::from_reflect)
+            .collect::<Option<Vec<_>>>()?
+            .try_into()
+            .ok()
     }
 }
 
-- 
2.43.0


From 7f0ca4fd4764e1ab0a45835dee39ab787844e9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:51 +0000
Subject: [PATCH 08/29] fix: converting an out of range number to a Duration
 fails instead of panicking

---
 crates/mirror-mirror/src/foreign_impls/via_scalar.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/mirror-mirror/src/foreign_impls/via_scalar.rs b/crates/mirror-mirror/src/foreign_impls/via_scalar.rs
index 7364526..d77b7a9 100644
--- a/crates/mirror-mirror/src/foreign_impls/via_scalar.rs
+++ b/crates/mirror-mirror/src/foreign_impls/via_scalar.rs
@@ -97,7 +97,15 @@ impl_reflect_via_scalar! { NonZeroI32,   i32,   |n: &NonZeroI32| n.get(),   Self
 impl_reflect_via_scalar! { NonZeroI64,   i64,   |n: &NonZeroI64| n.get(),   Self::new }
 impl_reflect_via_scalar! { NonZeroI128,  i128,  |n: &NonZeroI128| n.get(),  Self::new }
 
-impl_reflect_via_scalar! { Duration, f32, |d: &Duration| d.as_secs_f32(), Self::from_secs_f32 }
+impl_reflect_via_scalar! { Duration, f32, |d: &Duration| d.as_secs_f32(), duration_from_secs }
+
+/// `Duration::from_secs_f32` panics if the seconds cannot be represented as a `Duration`.
+fn duration_from_secs(secs: f32) -> Option<Duration> {
+    // `u64::MAX as f32` rounds up to 2^64 which is one second too many
+    (0.0..u64::MAX as f32)
+        .contains(&secs)
+        .then(|| Duration::from_secs_f32(secs))
+}
 
 trait IntoOption<T> {
     fn into_option(self) -> Option<T>;
-- 
2.43.0


From 6080e957b7010b4b099eb1a53a16bb6e698c5153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:51 +0000
Subject: [PATCH 09/29] fix: list indices in key paths that don't fit in usize
 are out of bounds instead of wrapping

---
 crates/mirror-mirror/src/key_path.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/mirror-mirror/src/key_path.rs b/crates/mirror-mirror/src/key_path.rs
index 250cf6f..2967178 100644
--- a/crates/mirror-mirror/src/key_path.rs
+++ b/crates/mirror-mirror/src/key_path.rs
@@ -570,14 +570,14 @@ pub(crate) fn value_to_usize(value: &Value) -> Option<usize> {
         Value::usize(n) => Some(*n),
         Value::u8(n) => Some(*n as usize),
         Value::u16(n) => Some(*n as usize),
-        Value::u32(n) => Some(*n as usize),
-        Value::u64(n) => Some(*n as usize),
-        Value::u128(n) => Some(*n as usize),
-        Value::i8(n) => Some(*n as usize),
-        Value::i16(n) => Some(*n as usize),
-        Value::i32(n) => Some(*n as usize),
-        Value::i64(n) => Some(*n as usize),
-        Value::i128(n) => Some(*n as usize),
+        Value::u32(n) => (*n).try_into().ok(),
+        Value::u64(n) => (*n).try_into().ok(),
+        Value::u128(n) => (*n).try_into().ok(),
+        Value::i8(n) => (*n).try_into().ok(),
+        Value::i16(n) => (*n).try_into().ok(),
+        Value::i32(n) => (*n).try_into().ok(),
+        Value::i64(n) => (*n).try_into().ok(),
+        Value::i128(n) => (*n).try_into().ok(),
         Value::bool(_)
         | Value::char(_)
         | Value::f32(_)
-- 
2.43.0


From 4bf6881e6381d6ecda84ec71c6693a36dcb76cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:24 +0000
Subject: [PATCH 10/29] fix: exact size iterators report how many items are
 left

---
 crates/mirror-mirror/src/array.rs        | 6 +++++-
 crates/mirror-mirror/src/key_path.rs     | 8 ++++++++
 crates/mirror-mirror/src/struct_.rs      | 6 +++++-
 crates/mirror-mirror/src/tuple.rs        | 6 +++++-
 crates/mirror-mirror/src/tuple_struct.rs | 6 +++++-
 5 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/crates/mirror-mirror/src/array.rs b/crates/mirror-mirror/src/array.rs
index b158686..bd65ee9 100644
--- a/crates/mirror-mirror/src/array.rs
+++ b/crates/mirror-mirror/src/array.rs
@@ -45,11 +45,15 @@ impl<'a> Iterator for Iter<'a> {
         self.index += 1;
         Some(value)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<'a> ExactSizeIterator for Iter<'a> {
     fn len(&self) -> usize {
-        self.array.len()
+        self.array.len().saturating_sub(self.index)
     }
 }
 
diff --git a/crates/mirror-mirror/src/key_path.rs b/crates/mirror-mirror/src/key_path.rs
index 2967178..b5726a0 100644
--- a/crates/mirror-mirror/src/key_path.rs
+++ b/crates/mirror-mirror/src/key_path.rs
@@ -313,6 +313,10 @@ impl Iterator for IntoIter {
     fn next(&mut self) -> Option<Self::Item> {
         self.0.next()
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.0.size_hint()
+    }
 }
 
 impl DoubleEndedIterator for IntoIter {
@@ -347,6 +351,10 @@ impl<'a> Iterator for Iter<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         self.0.next()
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.0.size_hint()
+    }
 }
 
 impl<'a> DoubleEndedIterator for Iter<'a> {
diff --git a/crates/mirror-mirror/src/struct_.rs b/crates/mirror-mirror/src/struct_.rs
index 1279955..5f88b99 100644
--- a/crates/mirror-mirror/src/struct_.rs
+++ b/crates/mirror-mirror/src/struct_.rs
@@ -226,11 +226,15 @@ impl<'a> Iterator for Iter<'a> {
         self.index += 1;
         Some((name, value))
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<'a> ExactSizeIterator for Iter<'a> {
     fn len(&self) -> usize {
-        self.struct_.fields_len()
+        self.struct_.fields_len().saturating_sub(self.index)
     }
 }
 
diff --git a/crates/mirror-mirror/src/tuple.rs b/crates/mirror-mirror/src/tuple.rs
index dfc2f24..433b5aa 100644
--- a/crates/mirror-mirror/src/tuple.rs
+++ b/crates/mirror-mirror/src/tuple.rs
@@ -339,11 +339,15 @@ impl<'a> Iterator for Iter<'a> {
         self.index += 1;
         Some(value)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<'a> ExactSizeIterator for Iter<'a> {
     fn len(&self) -> usize {
-        self.tuple.fields_len()
+        self.tuple.fields_len().saturating_sub(self.index)
     }
 }
 
diff --git a/crates/mirror-mirror/src/tuple_struct.rs b/crates/mirror-mirror/src/tuple_struct.rs
index 35956fd..08f5d47 100644
--- a/crates/mirror-mirror/src/tuple_struct.rs
+++ b/crates/mirror-mirror/src/tuple_struct.rs
@@ -190,11 +190,15 @@ impl<'a> Iterator for Iter<'a> {
         self.index += 1;
         Some(value)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<'a> ExactSizeIterator for Iter<'a> {
     fn len(&self) -> usize {
-        self.tuple_struct.fields_len()
+        self.tuple_struct.fields_len().saturating_sub(self.index)
     }
 }
 
-- 
2.43.0


From c7d347af74ec9061567a6da7113d6f924db42cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:24 +0000
Subject: [PATCH 11/29] fix: debug output of tuples shows their fields

---
 crates/mirror-mirror/src/tuple.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mirror-mirror/src/tuple.rs b/crates/mirror-mirror/src/tuple.rs
index 433b5aa..a4c09bd 100644
--- a/crates/mirror-mirror/src/tuple.rs
+++ b/crates/mirror-mirror/src/tuple.rs
@@ -205,7 +205,7 @@ macro_rules! impl_tuple {
             }
 
             fn debug(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
-                write!(f, "{}", core::any::type_name::<Self>())
+                crate::reflect_debug(self, f)
             }
 
             fn reflect_owned(self: Box<Self>) -> ReflectOwned {
-- 
2.43.0


From 869d83f9005ca450d99d099bb9da355dc03200e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:24 +0000
Subject: [PATCH 12/29] fix: describing enums and tuple structs that contain
 themselves in a box terminates

---
 crates/mirror-mirror-macros/src/derive_reflect/enum_.rs        | 2 +-
 crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
index 1afc05b..68b1d10 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
@@ -110,8 +110,8 @@ fn expand_describe_type(
     quote! {
         impl #impl_generics DescribeType for #ident #type_generics #where_clause {
             fn build(graph: &mut TypeGraph) -> NodeId {
-                let variants = &[#(#code_for_variants),*];
                 graph.get_or_build_node_with::<Self, _>(|graph| {
+                    let variants = &[#(#code_for_variants),*];
                     EnumNode::new::<Self>(variants, #meta, #docs)
                 })
             }
diff --git a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
index b922b7a..e97602d 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
@@ -70,8 +70,8 @@ fn expand_describe_type(
     quote! {
         impl #impl_generics DescribeType for #ident #type_generics #where_clause {
             fn build(graph: &mut TypeGraph) -> NodeId {
-                let fields = &[#(#code_for_fields),*];
                 graph.get_or_build_node_with::<Self, _>(|graph| {
+                    let fields = &[#(#code_for_fields),*];
                     TupleStructNode::new::<Self>(fields, #meta, #docs)
                 })
             }
-- 
2.43.0


From 837b718de75c2c6c115c4b24b91cf3ab89d772ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:24 +0000
Subject: [PATCH 13/29] fix: don't hold the type descriptor lock while building
 a type descriptor

---
 crates/mirror-mirror/src/type_info/mod.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/mirror-mirror/src/type_info/mod.rs b/crates/mirror-mirror/src/type_info/mod.rs
index 478c756..284019c 100644
--- a/crates/mirror-mirror/src/type_info/mod.rs
+++ b/crates/mirror-mirror/src/type_info/mod.rs
@@ -65,13 +65,15 @@ pub trait DescribeType: 'static {
                 return Cow::Borrowed(info);
             }
 
+            // `build` might run user code, such as the values of `#[reflect(meta(...))]`, that also
+            // needs the lock or that panics, so it must not be called while holding the lock
+            let mut graph = TypeGraph::default();
+            let id = Self::build(&mut graph);
+
             let mut map = lock.write().unwrap();
-            let info = map.entry(type_id).or_insert_with(|| {
-                let mut graph = TypeGraph::default();
-                let id = Self::build(&mut graph);
-                let info = TypeDescriptor::new(id, graph);
-                Box::leak(Box::new(info))
-            });
+            let info = map
+                .entry(type_id)
+                .or_insert_with(|| Box::leak(Box::new(TypeDescriptor::new(id, graph))));
             Cow::Borrowed(*info)
         }
 
-- 
2.43.0


From c21050e5d6441a6becf7c2b28008c8f8b6c747c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:24 +0000
Subject: [PATCH 14/29] fix: empty array types report that they have a default
 value

---
 crates/mirror-mirror/src/type_info/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mirror-mirror/src/type_info/mod.rs b/crates/mirror-mirror/src/type_info/mod.rs
index 284019c..a7da289 100644
--- a/crates/mirror-mirror/src/type_info/mod.rs
+++ b/crates/mirror-mirror/src/type_info/mod.rs
@@ -1271,7 +1271,7 @@ impl<'a> ArrayType<'a> {
     }
 
     pub fn has_default_value(&self) -> bool {
-        self.element_type().has_default_value()
+        self.is_empty() || self.element_type().has_default_value()
     }
 }
 
-- 
2.43.0


From 73dff2d7845c21aea8f789f10b5cf9664aac0b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:24 +0000
Subject: [PATCH 15/29] fix: metadata and docs of enum variants are available
 through type paths

---
 crates/mirror-mirror/src/type_info/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/mirror-mirror/src/type_info/mod.rs b/crates/mirror-mirror/src/type_info/mod.rs
index a7da289..1e4bd86 100644
--- a/crates/mirror-mirror/src/type_info/mod.rs
+++ b/crates/mirror-mirror/src/type_info/mod.rs
@@ -1401,9 +1401,9 @@ impl<'a> GetMeta<'a> for TypeAtPath<'a> {
             TypeAtPath::Struct(inner) => inner.meta(key),
             TypeAtPath::TupleStruct(inner) => inner.meta(key),
             TypeAtPath::Enum(inner) => inner.meta(key),
+            TypeAtPath::Variant(inner) => inner.meta(key),
             TypeAtPath::Opaque(inner) => inner.meta(key),
-            TypeAtPath::Variant(_)
-            | TypeAtPath::Tuple(_)
+            TypeAtPath::Tuple(_)
             | TypeAtPath::List(_)
             | TypeAtPath::Array(_)
             | TypeAtPath::Map(_)
@@ -1416,8 +1416,8 @@ impl<'a> GetMeta<'a> for TypeAtPath<'a> {
             TypeAtPath::Struct(inner) => inner.docs(),
             TypeAtPath::TupleStruct(inner) => inner.docs(),
             TypeAtPath::Enum(inner) => inner.docs(),
-            TypeAtPath::Variant(_)
-            | TypeAtPath::Tuple(_)
+            TypeAtPath::Variant(inner) => inner.docs(),
+            TypeAtPath::Tuple(_)
             | TypeAtPath::List(_)
             | TypeAtPath::Array(_)
             | TypeAtPath::Map(_)
-- 
2.43.0


From 80b6124e35580b1e6779606782a4e7b35a8a2e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:45 +0000
Subject: [PATCH 16/29] fix: variant fields of dynamic values can be looked up
 with owned strings

---
 crates/mirror-mirror/src/get_field.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/mirror-mirror/src/get_field.rs b/crates/mirror-mirror/src/get_field.rs
index 2fb8276..a32fe9d 100644
--- a/crates/mirror-mirror/src/get_field.rs
+++ b/crates/mirror-mirror/src/get_field.rs
@@ -99,9 +99,9 @@ where
             match self.reflect_ref() {
                 ReflectRef::Map(inner) => inner.get_field(key.to_owned()),
                 ReflectRef::Struct(inner) => inner.get_field(key),
+                ReflectRef::Enum(inner) => inner.get_field(&**key),
                 ReflectRef::TupleStruct(_)
                 | ReflectRef::Tuple(_)
-                | ReflectRef::Enum(_)
                 | ReflectRef::List(_)
                 | ReflectRef::Array(_)
                 | ReflectRef::Opaque(_)
@@ -145,9 +145,9 @@ where
             match self.reflect_mut() {
                 ReflectMut::Map(inner) => inner.get_field_mut(key.to_owned()),
                 ReflectMut::Struct(inner) => inner.get_field_mut(key),
+                ReflectMut::Enum(inner) => inner.get_field_mut(&**key),
                 ReflectMut::TupleStruct(_)
                 | ReflectMut::Tuple(_)
-                | ReflectMut::Enum(_)
                 | ReflectMut::List(_)
                 | ReflectMut::Array(_)
                 | ReflectMut::Opaque(_)
-- 
2.43.0


From 3084a92a82905047ee940869fc641e266c864112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:46 +0000
Subject: [PATCH 17/29] fix: simple type names keep leading underscores of type
 names

---
 .../mirror-mirror/src/type_info/simple_type_name.rs  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/mirror-mirror/src/type_info/simple_type_name.rs b/crates/mirror-mirror/src/type_info/simple_type_name.rs
index 5ca6ef2..8e07f8f 100644
--- a/crates/mirror-mirror/src/type_info/simple_type_name.rs
+++ b/crates/mirror-mirror/src/type_info/simple_type_name.rs
@@ -78,13 +78,13 @@ pub struct SimpleTypeName {
 
 impl SimpleTypeName {
     pub fn new(type_name: &str) -> Option<Self> {
-        const UNNAMED_CONST_PATH: &str = "::_";
+        // only remove whole path segments, and not the start of names such as `_Foo`
+        const UNNAMED_CONST_PATH: &str = "::_::";
 
-        let type_name = if type_name.contains(UNNAMED_CONST_PATH) {
-            Cow::Owned(type_name.replace(UNNAMED_CONST_PATH, ""))
-        } else {
-            Cow::Borrowed(type_name)
-        };
+        let mut type_name = Cow::Borrowed(type_name);
+        while type_name.contains(UNNAMED_CONST_PATH) {
+            type_name = Cow::Owned(type_name.replace(UNNAMED_CONST_PATH, "::"));
+        }
 
         let ty = syn::parse_str::<Type>(&type_name).ok()?;
         Some(Self { ty })
-- 
2.43.0


From 1f705a05e3ceef9b00791ad9da6cfe0b458e3573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:49 +0000
Subject: [PATCH 18/29] fix: simple type names leave out lifetimes

---
 crates/mirror-mirror/src/type_info/simple_type_name.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/mirror-mirror/src/type_info/simple_type_name.rs b/crates/mirror-mirror/src/type_info/simple_type_name.rs
index 8e07f8f..5d08ea4 100644
--- a/crates/mirror-mirror/src/type_info/simple_type_name.rs
+++ b/crates/mirror-mirror/src/type_info/simple_type_name.rs
@@ -295,8 +295,15 @@ impl<'a, 'b> WriteAst<AngleBracketedGenericArguments> for TypeWriter<'a, 'b> {
             args,
             gt_token: _,
         } = args;
+        // newer compilers include lifetimes in type names
+        let mut args = args
+            .iter()
+            .filter(|arg| !matches!(arg, GenericArgument::Lifetime(_)))
+            .peekable();
+        if args.peek().is_none() {
+            return Ok(());
+        }
         write!(self.f, "<")?;
-        let mut args = args.iter().peekable();
         while let Some(arg) = args.next() {
             self.write(arg)?;
             if args.peek().is_some() {
-- 
2.43.0


From 78390cf03807e1d3a72cd7704b2277025f584edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:49 +0000
Subject: [PATCH 19/29] fix: debug output of the empty tuple is not empty

---
 crates/mirror-mirror/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/mirror-mirror/src/lib.rs b/crates/mirror-mirror/src/lib.rs
index 2675667..8a9a583 100644
--- a/crates/mirror-mirror/src/lib.rs
+++ b/crates/mirror-mirror/src/lib.rs
@@ -1230,6 +1230,8 @@ pub fn reflect_debug(value: &dyn Reflect, f: &mut core::fmt::Formatter<'_>) -> c
             }
             f.finish()
         }
+        // `debug_tuple` writes nothing if there is neither a name nor any fields
+        ReflectRef::Tuple(inner) if inner.fields_len() == 0 => write!(f, "()"),
         ReflectRef::Tuple(inner) => {
             let mut f = f.debug_tuple("");
             for field in inner.fields() {
-- 
2.43.0


From c78452c05190b21390057be220090797d259e8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:45 +0000
Subject: [PATCH 20/29] fix: reflect_eq of maps compares keys in both
 directions

Keys are looked up by converting them to the other map's key type, which
ignores surplus fields, so maps with different keys could be equal in one
direction and unequal in the other.
---
 crates/mirror-mirror/src/reflect_eq.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/mirror-mirror/src/reflect_eq.rs b/crates/mirror-mirror/src/reflect_eq.rs
index e3b9413..6133381 100644
--- a/crates/mirror-mirror/src/reflect_eq.rs
+++ b/crates/mirror-mirror/src/reflect_eq.rs
@@ -267,7 +267,9 @@ fn reflect_eq_map(a: &dyn Map, b: &dyn Map) -> Option<bool> {
                     None => return None,
                 }
             }
-            true
+            // looking up a key converts it to the map's key type which ignores surplus fields so
+            // the keys are only the same if they're also found the other way around
+            b.iter().all(|(key, _)| a.get(key).is_some())
         },
     )
 }
-- 
2.43.0


From 95c415888f086fc9c44b0ba26cef6ae776c87386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:01 +0000
Subject: [PATCH 21/29] fix: pretty printing falls back to the full name of
 types that cannot be simplified

A type name that parses but contains something unsupported (such as a char
const argument) made formatting fail halfway.
---
 crates/mirror-mirror/src/type_info/pretty_print.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/mirror-mirror/src/type_info/pretty_print.rs b/crates/mirror-mirror/src/type_info/pretty_print.rs
index 7b794c6..de4271c 100644
--- a/crates/mirror-mirror/src/type_info/pretty_print.rs
+++ b/crates/mirror-mirror/src/type_info/pretty_print.rs
@@ -51,10 +51,11 @@ impl<'a> PrettyPrintRoot for Type<'a> {
 
 #[cfg(feature = "std")]
 fn simple_type_name_fmt(type_name: &str, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-    if let Some(name) = super::SimpleTypeName::new(type_name) {
-        write!(f, "{name}")
-    } else {
-        f.write_str(type_name)
+    // not all type names can be simplified
+    let mut simple = alloc::string::String::new();
+    match super::SimpleTypeName::new(type_name) {
+        Some(name) if write!(simple, "{name}").is_ok() => f.write_str(&simple),
+        _ => f.write_str(type_name),
     }
 }
 
-- 
2.43.0


From 01fb411c247e2149dfae2476337a55d2cea18f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:34 +0000
Subject: [PATCH 22/29] fix: enum variant fields can have raw identifiers

---
 crates/mirror-mirror-macros/src/derive_reflect/enum_.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
index 68b1d10..5211f14 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
@@ -968,7 +968,7 @@ impl<'a> VariantData<'a> {
                                 let ident = field.ident.as_ref().unwrap();
                                 let ty = &field.ty;
                                 let attrs = InnerAttrs::parse(&field.attrs)?;
-                                let binding = quote::format_ident!("field_{ident}");
+                                let binding = quote::format_ident!("field_{}", ident);
 
                                 Ok(NamedField {
                                     ident,
-- 
2.43.0


From 1191449072471d84f9ca70a8179de35808db6ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:22 +0000
Subject: [PATCH 23/29] fix: deriving Reflect for enums without variants
 compiles

---
 .../src/derive_reflect/enum_.rs               | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
index 5211f14..3991cd5 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
@@ -281,10 +281,11 @@ fn expand_reflect(
                 }
             }
         });
+        let scrutinee = scrutinee(variants);
 
         quote! {
             fn to_value(&self) -> Value {
-                match self {
+                match #scrutinee {
                     #(#match_arms)*
                     #catch_all_branch
                 }
@@ -346,6 +347,15 @@ fn expand_reflect(
     })
 }
 
+/// References are always considered inhabited so enums without variants must be matched by value.
+fn scrutinee(variants: &[VariantData<'_>]) -> TokenStream {
+    if variants.is_empty() {
+        quote! { *self }
+    } else {
+        quote! { self }
+    }
+}
+
 fn expand_from_reflect(
     ident: &Ident,
     variants: &[VariantData<'_>],
@@ -493,9 +503,11 @@ fn expand_enum(
             }
         });
 
+        let scrutinee = scrutinee(variants);
+
         quote! {
             fn variant_name(&self) -> &str {
-                match self {
+                match #scrutinee {
                     #(#match_arms)*
                 }
             }
@@ -517,9 +529,11 @@ fn expand_enum(
             }
         });
 
+        let scrutinee = scrutinee(variants);
+
         quote! {
             fn variant_kind(&self) -> VariantKind {
-                match self {
+                match #scrutinee {
                     #(#match_arms)*
                 }
             }
-- 
2.43.0


From e3257de9b87d828fc50824e7127cde4c67d2fe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:02 +0000
Subject: [PATCH 24/29] fix: deriving works on structs assembled by macro_rules
 from parts of different origin

---
 .../mirror-mirror-macros/src/derive_reflect/struct_named.rs   | 4 +++-
 .../mirror-mirror-macros/src/derive_reflect/tuple_struct.rs   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/struct_named.rs b/crates/mirror-mirror-macros/src/derive_reflect/struct_named.rs
index 7a801f1..7a41ac1 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/struct_named.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/struct_named.rs
@@ -1,3 +1,4 @@
+use proc_macro2::Span;
 use proc_macro2::TokenStream;
 use quote::quote;
 use quote::quote_spanned;
@@ -197,7 +198,8 @@ fn expand_from_reflect(
         let code_for_fields = fields.iter().map(|field| {
             let ident = field.ident.as_ref().unwrap();
             let skip = field_attrs.skip(ident);
-            let span = field.ty.span();
+            // locals must resolve like those outside of this span, also if a macro built the type
+            let span = Span::call_site().located_at(field.ty.span());
 
             if skip {
                 quote_spanned! {span=>
diff --git a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
index e97602d..ff05cb7 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
@@ -1,3 +1,4 @@
+use proc_macro2::Span;
 use proc_macro2::TokenStream;
 use quote::quote;
 use quote::quote_spanned;
@@ -204,7 +205,8 @@ fn expand_from_reflect(
             // skipped fields don't have a position
             let position = (0..idx).filter(|idx| !field_attrs.skip(idx)).count();
             let ty = &field.ty;
-            let span = ty.span();
+            // locals must resolve like those outside of this span, also if a macro built the type
+            let span = Span::call_site().located_at(ty.span());
             if field_attrs.skip(&idx) {
                 quote_spanned! {span=>
                     #field_index: ::core::default::Default::default(),
-- 
2.43.0


From 9befe87fa72906a395b345d3e611c61718620500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:08 +0000
Subject: [PATCH 25/29] fix: deriving Reflect compiles in no_std crates

---
 crates/mirror-mirror/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/mirror-mirror/src/lib.rs b/crates/mirror-mirror/src/lib.rs
index 8a9a583..1e2d93a 100644
--- a/crates/mirror-mirror/src/lib.rs
+++ b/crates/mirror-mirror/src/lib.rs
@@ -1301,6 +1301,8 @@ pub fn reflect_debug(value: &dyn Reflect, f: &mut core::fmt::Formatter<'_>) -> c
 #[doc(hidden)]
 pub mod __private {
     pub use alloc::borrow::Cow;
+    pub use alloc::borrow::ToOwned;
+    pub use alloc::boxed::Box;
     pub use alloc::collections::BTreeMap;
     pub use core::any::Any;
     pub use core::any::TypeId;
-- 
2.43.0


From 0b224192ff81dc71599d6b4b880f7e2311c4fd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:31 +0000
Subject: [PATCH 26/29] fix: fields of tuple variants have no made-up names

---
 .../src/derive_reflect/enum_.rs               | 23 ++++---------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
index 3991cd5..b52874e 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
@@ -902,25 +902,10 @@ fn expand_enum(
                             },
                         }
                     }
-                    FieldsData::Unnamed(fields) => {
-                        let return_if_index_matches =
-                            fields.iter().filter(filter_out_skipped).enumerate().map(
-                                |(idx, field)| {
-                                    let field_name = &field.fake_ident;
-                                    quote! {
-                                        if #idx == index {
-                                            return Some(::core::stringify!(#field_name));
-                                        }
-                                    }
-                                },
-                            );
-
-                        quote! {
-                            Self::#variant_ident(#(#field_names,)*) => {
-                                #(#return_if_index_matches)*
-                            },
-                        }
-                    }
+                    // fields of tuple variants don't have names
+                    FieldsData::Unnamed(_) => quote! {
+                        Self::#variant_ident(..) => {},
+                    },
                     FieldsData::Unit => quote! {
                         Self::#variant_ident => {},
                     },
-- 
2.43.0


From ebea6d017f3a81b224a1d4bad3a1843a60fdc5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:49 +0000
Subject: [PATCH 27/29] fix: deriving Reflect works with skipped HashMaps and
 other things called HashMap

---
 .../src/derive_reflect/mod.rs                 | 25 ++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/mod.rs b/crates/mirror-mirror-macros/src/derive_reflect/mod.rs
index 3ab3942..03be887 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/mod.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/mod.rs
@@ -95,16 +95,35 @@ fn check_for_known_unsupported_types(item: &DeriveInput) -> syn::Result<()> {
     struct Visitor(Option<syn::Error>);
 
     impl<'ast> syn::visit::Visit<'ast> for Visitor {
-        fn visit_ident(&mut self, i: &'ast proc_macro2::Ident) {
-            if i == "HashMap" && self.0.is_none() {
+        // skipped fields and variants can contain anything
+        fn visit_field(&mut self, i: &'ast syn::Field) {
+            if !is_skipped(&i.attrs) {
+                syn::visit::visit_field(self, i);
+            }
+        }
+
+        fn visit_variant(&mut self, i: &'ast syn::Variant) {
+            if !is_skipped(&i.attrs) {
+                syn::visit::visit_variant(self, i);
+            }
+        }
+
+        // only types, there might also be fields or variants called `HashMap`
+        fn visit_path_segment(&mut self, i: &'ast syn::PathSegment) {
+            if i.ident == "HashMap" && self.0.is_none() {
                 self.0 = Some(syn::Error::new_spanned(
-                    i,
+                    &i.ident,
                     "`#[derive(Reflect)]` doesn't support `HashMap`. Use a `BTreeMap` instead.",
                 ));
             }
+            syn::visit::visit_path_segment(self, i);
         }
     }
 
+    fn is_skipped(attrs: &[syn::Attribute]) -> bool {
+        attrs::InnerAttrs::parse(attrs).map_or(false, |attrs| attrs.skip)
+    }
+
     let mut visitor = Visitor::default();
     syn::visit::visit_derive_input(&mut visitor, item);
 
-- 
2.43.0


From 70f9913e2c804a98e9ae277b9eeacda5d28721d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:57 +0000
Subject: [PATCH 28/29] fix: documentation given by an expression such as
 `concat!` was dropped

---
 .../src/derive_reflect/attrs.rs               | 24 ++++++-------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/attrs.rs b/crates/mirror-mirror-macros/src/derive_reflect/attrs.rs
index 143adcf..4b5cef5 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/attrs.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/attrs.rs
@@ -9,8 +9,6 @@ use syn::Expr;
 use syn::Field;
 use syn::FieldsNamed;
 use syn::FieldsUnnamed;
-use syn::Lit;
-use syn::LitStr;
 use syn::Token;
 use syn::UseTree;
 
@@ -32,11 +30,11 @@ pub(super) struct ItemAttrs {
     pub(super) from_reflect_opt_out: bool,
     pub(super) crate_name: UseTree,
     meta: BTreeMap<Ident, Expr>,
-    docs: Vec<LitStr>,
+    docs: Vec<Expr>,
 }
 
 impl ItemAttrs {
-    fn new(docs: Vec<LitStr>) -> Self {
+    fn new(docs: Vec<Expr>) -> Self {
         Self {
             debug_opt_out: Default::default(),
             clone_opt_out: Default::default(),
@@ -173,20 +171,12 @@ impl ItemAttrs {
     }
 }
 
-fn parse_docs(attrs: &[Attribute]) -> Vec<LitStr> {
+fn parse_docs(attrs: &[Attribute]) -> Vec<Expr> {
     attrs
         .iter()
         .filter(|attr| attr.meta.path().is_ident("doc"))
-        .filter_map(|attr| {
-            let name_value = attr.meta.require_name_value().ok()?;
-            let Expr::Lit(lit_expr) = &name_value.value else {
-                return None;
-            };
-            let Lit::Str(lit_str) = &lit_expr.lit else {
-                return None;
-            };
-            Some(lit_str.clone())
-        })
+        // the value doesn't have to be a literal, it can also be something like `concat!(...)`
+        .filter_map(|attr| Some(attr.meta.require_name_value().ok()?.value.clone()))
         .collect::<Vec<_>>()
 }
 
@@ -280,12 +270,12 @@ where
 pub(super) struct InnerAttrs {
     pub(super) skip: bool,
     pub(super) meta: BTreeMap<Ident, Expr>,
-    pub(super) docs: Vec<LitStr>,
+    pub(super) docs: Vec<Expr>,
     pub(super) from_reflect_with: Option<Ident>,
 }
 
 impl InnerAttrs {
-    pub(super) fn new(docs: Vec<LitStr>) -> Self {
+    pub(super) fn new(docs: Vec<Expr>) -> Self {
         Self {
             skip: Default::default(),
             meta: Default::default(),
-- 
2.43.0


From 2f2a0dce6228d1785b53c205aa58fd95adbef386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:57 +0000
Subject: [PATCH 29/29] fix: derived code called inherent methods (or methods
 of other traits in scope) of the same name instead of the library's

---
 .../src/derive_reflect/attrs.rs               |  4 +--
 .../src/derive_reflect/enum_.rs               | 26 +++++++++----------
 .../src/derive_reflect/mod.rs                 |  2 +-
 .../src/derive_reflect/struct_named.rs        |  6 ++---
 .../src/derive_reflect/tuple_struct.rs        | 10 +++----
 5 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/attrs.rs b/crates/mirror-mirror-macros/src/derive_reflect/attrs.rs
index 4b5cef5..f430068 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/attrs.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/attrs.rs
@@ -148,8 +148,8 @@ impl ItemAttrs {
         if self.clone_opt_out {
             quote! {
                 fn clone_reflect(&self) -> Box<dyn Reflect> {
-                    let value = self.to_value();
-                    Box::new(Self::from_reflect(&value).unwrap())
+                    let value = Reflect::to_value(self);
+                    Box::new(<Self as FromReflect>::from_reflect(&value).unwrap())
                 }
             }
         } else {
diff --git a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
index b52874e..3fd6f7e 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
@@ -137,7 +137,7 @@ fn expand_reflect(
                         let binding = &field.binding;
                         quote! {
                             if let Some(new_value) = enum_.field(#ident_string) {
-                                #binding.patch(new_value);
+                                Reflect::patch(#binding, new_value);
                             }
                         }
                     });
@@ -156,7 +156,7 @@ fn expand_reflect(
                             let ident = &field.fake_ident;
                             quote! {
                                 if let Some(new_value) = enum_.field_at(#index) {
-                                    #ident.patch(new_value);
+                                    Reflect::patch(#ident, new_value);
                                 }
                             }
                         },
@@ -187,7 +187,7 @@ fn expand_reflect(
                         if let Some(new) = FromReflect::from_reflect(value) {
                             *self = new;
                         } else {
-                            let variant_matches = self.variant_name() == enum_.variant_name();
+                            let variant_matches = Enum::variant_name(self) == enum_.variant_name();
                             match self {
                                 #(#match_arms)*
                                 _ => {}
@@ -205,7 +205,7 @@ fn expand_reflect(
                         if let Some(new) = FromReflect::from_reflect(value) {
                             *self = new;
                         } else {
-                            let variant_matches = self.variant_name() == enum_.variant_name();
+                            let variant_matches = Enum::variant_name(self) == enum_.variant_name();
                             match self {
                                 #(#match_arms)*
                                 _ => {}
@@ -229,7 +229,7 @@ fn expand_reflect(
                         let ident_string = stringify(field.ident);
                         let binding = &field.binding;
                         quote! {
-                            value.set_struct_field(#ident_string, #binding.to_value());
+                            value.set_struct_field(#ident_string, Reflect::to_value(#binding));
                         }
                     });
 
@@ -257,7 +257,7 @@ fn expand_reflect(
                         Self::#variant_ident(#(#field_names,)*) => {
                             let mut value = EnumValue::new_tuple_variant_with_capacity(#variant_ident_string, #fields_len);
                             #(
-                                value.push_tuple_field(#included_fields.to_value());
+                                value.push_tuple_field(Reflect::to_value(#included_fields));
                             )*
                             value.finish().into()
                         }
@@ -277,7 +277,7 @@ fn expand_reflect(
         let catch_all_branch = has_skipped_variant.then(|| {
             quote! {
                 other => {
-                    panic!("`Reflection::to_value` called on `{:?}` which doesn't suport reflection", other.as_reflect())
+                    panic!("`Reflection::to_value` called on `{:?}` which doesn't suport reflection", Reflect::as_reflect(other))
                 }
             }
         });
@@ -650,7 +650,7 @@ fn expand_enum(
                                     let binding = &field.binding;
                                     quote! {
                                         if #idx == index {
-                                            return Some(#binding.as_reflect());
+                                            return Some(Reflect::as_reflect(#binding));
                                         }
                                     }
                                 },
@@ -669,7 +669,7 @@ fn expand_enum(
                                     let field_name = &field.fake_ident;
                                     quote! {
                                         if #idx == index {
-                                            return Some(#field_name.as_reflect());
+                                            return Some(Reflect::as_reflect(#field_name));
                                         }
                                     }
                                 },
@@ -714,7 +714,7 @@ fn expand_enum(
                                     let binding = &field.binding;
                                     quote! {
                                         if #idx == index {
-                                            return Some(#binding.as_reflect_mut());
+                                            return Some(Reflect::as_reflect_mut(#binding));
                                         }
                                     }
                                 },
@@ -733,7 +733,7 @@ fn expand_enum(
                                     let field_name = &field.fake_ident;
                                     quote! {
                                         if #idx == index {
-                                            return Some(#field_name.as_reflect_mut());
+                                            return Some(Reflect::as_reflect_mut(#field_name));
                                         }
                                     }
                                 },
@@ -785,7 +785,7 @@ fn expand_enum(
                         let name = stringify(field.ident);
                         let binding = &field.binding;
                         quote! {
-                            (#name, #binding.as_reflect_mut()),
+                            (#name, Reflect::as_reflect_mut(#binding)),
                         }
                     });
 
@@ -804,7 +804,7 @@ fn expand_enum(
 
                     quote! {
                         Self::#variant_ident(#(#field_names,)*) => {
-                            let iter = [#(#included_fields.as_reflect_mut(),)*];
+                            let iter = [#(Reflect::as_reflect_mut(#included_fields),)*];
                             VariantFieldIterMut::new_tuple_variant(iter)
                         },
                     }
diff --git a/crates/mirror-mirror-macros/src/derive_reflect/mod.rs b/crates/mirror-mirror-macros/src/derive_reflect/mod.rs
index 03be887..07b71a5 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/mod.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/mod.rs
@@ -83,7 +83,7 @@ pub(crate) fn expand(item: DeriveInput) -> syn::Result<TokenStream> {
 
             impl #impl_generics From<#ident #type_generics> for Value #where_clause {
                 fn from(data: #ident #type_generics) -> Value {
-                    data.to_value()
+                    Reflect::to_value(&data)
                 }
             }
         };
diff --git a/crates/mirror-mirror-macros/src/derive_reflect/struct_named.rs b/crates/mirror-mirror-macros/src/derive_reflect/struct_named.rs
index 7a41ac1..9aa5341 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/struct_named.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/struct_named.rs
@@ -96,7 +96,7 @@ fn expand_reflect(
                 let field = stringify(&field.ident);
                 quote! {
                     if let Some(field) = value.field(#field) {
-                        self.field_mut(#field).unwrap().patch(field);
+                        Struct::field_mut(self, #field).unwrap().patch(field);
                     }
                 }
             });
@@ -118,7 +118,7 @@ fn expand_reflect(
                 let ident = &field.ident;
                 let field = stringify(ident);
                 quote! {
-                    let value = value.with_field(#field, self.#ident.to_value());
+                    let value = value.with_field(#field, Reflect::to_value(&self.#ident));
                 }
             });
 
@@ -395,7 +395,7 @@ fn expand_struct(
                 let ident = &field.ident;
                 let field = stringify(ident);
                 quote! {
-                    (#field, self.#ident.as_reflect_mut()),
+                    (#field, Reflect::as_reflect_mut(&mut self.#ident)),
                 }
             });
 
diff --git a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
index ff05cb7..3621fe7 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
@@ -96,7 +96,7 @@ fn expand_reflect(
             .map(|(position, _)| {
                 quote! {
                     if let Some(new_value) = tuple_struct.field_at(#position) {
-                        self.field_at_mut(#position).unwrap().patch(new_value);
+                        TupleStruct::field_at_mut(self, #position).unwrap().patch(new_value);
                     }
                 }
             });
@@ -121,7 +121,7 @@ fn expand_reflect(
                     span: field.span(),
                 };
                 quote! {
-                    let value = value.with_field(self.#field_index.to_value());
+                    let value = value.with_field(Reflect::to_value(&self.#field_index));
                 }
             });
 
@@ -281,7 +281,7 @@ fn expand_tuple_struct(
                     span: field.span(),
                 };
                 quote! {
-                    #position => Some(self.#field_index.as_reflect()),
+                    #position => Some(Reflect::as_reflect(&self.#field_index)),
                 }
             });
 
@@ -307,7 +307,7 @@ fn expand_tuple_struct(
                     span: field.span(),
                 };
                 quote! {
-                    #position => Some(self.#field_index.as_reflect_mut()),
+                    #position => Some(Reflect::as_reflect_mut(&mut self.#field_index)),
                 }
             });
 
@@ -342,7 +342,7 @@ fn expand_tuple_struct(
                     span: field.span(),
                 };
                 quote! {
-                    self.#field_index.as_reflect_mut(),
+                    Reflect::as_reflect_mut(&mut self.#field_index),
                 }
             });
 
-- 
2.43.0

