From b3c3586e10457be007cf67b6d00686e792d06909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 01/22] fix: Owned as an Initializer copies layout.size()
 bytes, not elements

copy_nonoverlapping was called on *mut T with a byte count, overrunning both
source and destination whenever size_of::<T>() > 1 (and copying nothing of the
tail whenever size_of::<T>() == 0).
---
 varlen/src/owned.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/varlen/src/owned.rs b/varlen/src/owned.rs
index 77576f3..0d2363b 100644
--- a/varlen/src/owned.rs
+++ b/varlen/src/owned.rs
@@ -217,7 +217,11 @@ unsafe impl<T: VarLen> Initializer<T> for Owned<'_, T> {
         //  * Owned has unique access to its pointer
         //  * dst is unique
         //  * dst size is guaranteed by the SizedInitializer call
-        core::ptr::copy_nonoverlapping(self.0.as_ptr(), dst.as_ptr(), layout.size());
+        core::ptr::copy_nonoverlapping(
+            self.0.as_ptr().cast::<u8>(),
+            dst.as_ptr().cast::<u8>(),
+            layout.size(),
+        );
         core::mem::forget(self);
     }
 
-- 
2.43.0


From 63cdbbbcd18c590b132d4a85bb25a98d3c08248e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 02/22] fix: Owned::leak does not run the destructor

The destructuring copied the pointer out, and self was then dropped at the end
of the function, so the returned reference pointed at a dropped value.
---
 varlen/src/owned.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/varlen/src/owned.rs b/varlen/src/owned.rs
index 0d2363b..f56949d 100644
--- a/varlen/src/owned.rs
+++ b/varlen/src/owned.rs
@@ -163,6 +163,7 @@ impl<'storage, T: VarLen> Owned<'storage, T> {
     /// ```
     pub fn leak(self) -> Pin<&'storage mut T> {
         let Owned(mut ptr, _) = self;
+        core::mem::forget(self);
         unsafe { Pin::new_unchecked(ptr.as_mut()) }
     }
 
-- 
2.43.0


From 4612afdc6b5d100ac5f4e184750c5172ac4d79d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 03/22] fix: Seq::take_elems clears the bitmap of the elements
 it takes

occupied_offsets was reset before it was used as the range to clear, so nothing
was cleared and stale offsets were accepted by later checked indexing.
---
 varlen/src/seq.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/varlen/src/seq.rs b/varlen/src/seq.rs
index 17aa13c..ee2c3a8 100644
--- a/varlen/src/seq.rs
+++ b/varlen/src/seq.rs
@@ -907,11 +907,11 @@ impl<T: VarLen, Idx: Indexing> Seq<T, Idx> {
             len_elements: self.len_elements,
             marker: core::marker::PhantomData,
         };
-        self.len_elements = 0;
-        self.occupied_offsets = 0;
         unsafe {
             Idx::clear_bitmasks(self.ptr, self.capacity_offsets, self.occupied_offsets);
         }
+        self.len_elements = 0;
+        self.occupied_offsets = 0;
         r
     }
 
-- 
2.43.0


From 74accda253b3ade96143ff1bf535b7df3f3aef72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 04/22] fix: Seq::push marks an offset valid only once the
 element is initialized

If the initializer panicked, the bit stayed set beyond the occupied range, where
take_elems does not clear it; after refilling the sequence, checked indexing
accepted an offset in the middle of an element.
---
 varlen/src/seq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/varlen/src/seq.rs b/varlen/src/seq.rs
index ee2c3a8..5efd3b8 100644
--- a/varlen/src/seq.rs
+++ b/varlen/src/seq.rs
@@ -687,8 +687,8 @@ impl<T: VarLen, Idx: Indexing> Seq<T, Idx> {
         }
         let elem_offset = self.occupied_offsets;
         unsafe {
-            Idx::mark_offset_valid(self.ptr, self.capacity_offsets, elem_offset);
             init.initialize(add_offsets_fast(self.ptr, elem_offset), layout);
+            Idx::mark_offset_valid(self.ptr, self.capacity_offsets, elem_offset);
         }
         self.occupied_offsets = occupied_plus;
         self.len_elements += 1;
-- 
2.43.0


From dc819f2085c1a8879c71d79623ff346ba729b5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 05/22] fix: VBox::new reports allocation failure instead of
 writing through null

---
 varlen/src/vbox.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/varlen/src/vbox.rs b/varlen/src/vbox.rs
index e717e1c..4bcdec4 100644
--- a/varlen/src/vbox.rs
+++ b/varlen/src/vbox.rs
@@ -59,6 +59,9 @@ impl<T: VarLen> VBox<T> {
             .unwrap_or_else(|_| allocation_overflow());
         unsafe {
             let p = alloc::alloc(alloc_layout) as *mut T;
+            if p.is_null() {
+                alloc::handle_alloc_error(alloc_layout);
+            }
             let layout_size = layout.size();
             init.initialize(NonNull::new_unchecked(p), layout);
             let mut p = NonNull::new_unchecked(p);
-- 
2.43.0


From 658f1039d4afab830578d0ce09d036db873c3479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 06/22] fix: VBox of a zero-sized value does not call the
 allocator

alloc and dealloc with a zero-sized layout are undefined behavior.
---
 varlen/src/vbox.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/varlen/src/vbox.rs b/varlen/src/vbox.rs
index 4bcdec4..51a2831 100644
--- a/varlen/src/vbox.rs
+++ b/varlen/src/vbox.rs
@@ -40,6 +40,25 @@ fn allocation_overflow() -> ! {
     panic!("Allocation size overflow")
 }
 
+/// As `alloc::alloc`, but also permits zero-sized layouts, which allocate nothing.
+#[inline]
+unsafe fn alloc_nonzero(layout: alloc::Layout) -> *mut u8 {
+    if layout.size() == 0 {
+        // Dangling, but suitably aligned.
+        core::ptr::null_mut::<u8>().wrapping_add(layout.align())
+    } else {
+        alloc::alloc(layout)
+    }
+}
+
+/// Counterpart of `alloc_nonzero`.
+#[inline]
+unsafe fn dealloc_nonzero(ptr: *mut u8, layout: alloc::Layout) {
+    if layout.size() != 0 {
+        alloc::dealloc(ptr, layout)
+    }
+}
+
 #[allow(rustdoc::missing_doc_code_examples)]
 impl<T: VarLen> VBox<T> {
     /// Allocates memory which is right-sized for this particular instance.
@@ -58,7 +77,7 @@ impl<T: VarLen> VBox<T> {
         let alloc_layout = alloc::Layout::from_size_align(layout.size(), T::ALIGN)
             .unwrap_or_else(|_| allocation_overflow());
         unsafe {
-            let p = alloc::alloc(alloc_layout) as *mut T;
+            let p = alloc_nonzero(alloc_layout) as *mut T;
             if p.is_null() {
                 alloc::handle_alloc_error(alloc_layout);
             }
@@ -153,7 +172,7 @@ impl<T: VarLen> Drop for VBox<T> {
             let layout = T::calculate_layout(&*self);
             let alloc_layout = alloc::Layout::from_size_align_unchecked(layout.size(), T::ALIGN);
             T::vdrop(self.as_mut(), layout);
-            alloc::dealloc(self.0.as_ptr() as *mut u8, alloc_layout);
+            dealloc_nonzero(self.0.as_ptr() as *mut u8, alloc_layout);
         }
     }
 }
@@ -191,7 +210,7 @@ unsafe impl<T: VarLen> Initializer<T> for VBox<T> {
         //  * dst is unique
         //  * dst size is guaranteed by the SizedInitializer call
         core::ptr::copy_nonoverlapping(ptr, dst.as_ptr().cast::<u8>(), size);
-        alloc::dealloc(ptr, layout);
+        dealloc_nonzero(ptr, layout);
         core::mem::forget(self);
     }
 
-- 
2.43.0


From b80569b3bb1af2749c3ea96870e0cef96bc04fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 07/22] fix: Seq supports zero-sized elements

They occupied no storage, so that pushing one onto an IndexableSeq wrote to the
bitmap through the dangling base pointer, they were never dropped, and they were
placed at an address not aligned to T::ALIGN.
---
 varlen/src/seq.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/varlen/src/seq.rs b/varlen/src/seq.rs
index 5efd3b8..73e1feb 100644
--- a/varlen/src/seq.rs
+++ b/varlen/src/seq.rs
@@ -481,8 +481,13 @@ unsafe fn add_bytes_fast<T: VarLen>(ptr: NonNull<T>, bytes: usize) -> NonNull<T>
     NonNull::new_unchecked((ptr.as_ptr() as *mut u8).wrapping_add(bytes) as *mut T)
 }
 
+/// Size of the storage that an element occupies in the sequence.
+///
+/// This is at least `align`, even for zero-sized elements, so that every element has an
+/// offset of its own, within the storage.
 #[inline(always)]
 fn round_up_fast(size: usize, align: usize) -> usize {
+    let size = core::cmp::max(size, 1);
     size.wrapping_add(align - 1) & 0usize.wrapping_sub(align)
 }
 
@@ -670,7 +675,11 @@ impl<T: VarLen, Idx: Indexing> Seq<T, Idx> {
     fn try_push(&mut self, init: impl Initializer<T>) -> Result<(), OverflowError> {
         let layout = init.calculate_layout_cautious().ok_or(OverflowError)?;
         let align = T::ALIGN;
-        let size_offsets = layout.size().checked_add(align - 1).ok_or(OverflowError)? / align;
+        // Must match `round_up_fast`.
+        let size_offsets = core::cmp::max(layout.size(), 1)
+            .checked_add(align - 1)
+            .ok_or(OverflowError)?
+            / align;
         let occupied_plus = self
             .occupied_offsets
             .checked_add(size_offsets)
-- 
2.43.0


From f7db0a24b0d75e0ea568afe108283799750a286e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 08/22] fix: define_varlen passes the struct's generics to
 size_of

Definitions with a type parameter without a default did not compile.
---
 varlen_macro/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index 2c7b9e5..b7d0596 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -399,7 +399,7 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
                         &self.#lengths_ident,
                     )*
                 );
-                let size = ::core::mem::size_of::<#tyname>();
+                let size = ::core::mem::size_of::<#tyname<#(#generics_apply),*>>();
                 #(
                     let (#varlen_ident, #varlen_layout_ident, size) = #varlen_cat_field_cautious?;
                 )*
-- 
2.43.0


From 3db62db5c691731156b621f936ff0c056ee8f999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 09/22] fix: try_set_layout_controllers replaces all fields or
 none

A panic in the destructor of an old field left the later fields unreplaced, with
array lengths that do not match the tail.
---
 varlen_macro/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index b7d0596..b135ff3 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -473,8 +473,15 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
                     )*;
                 if valid {
                     let self_mut = unsafe { self.get_unchecked_mut() };
+                    // Replace all fields before dropping any of the old values, because a
+                    // panicking destructor must not leave only some of them replaced.
+                    #[allow(unused_mut)]
+                    let mut layout_controllers = layout_controllers;
                     #(
-                        self_mut.#lengths_ident = layout_controllers.#lengths_ident;
+                        ::core::mem::swap(
+                            &mut self_mut.#lengths_ident,
+                            &mut layout_controllers.#lengths_ident,
+                        );
                     )*
                     ::core::result::Result::Ok(())
                 } else {
-- 
2.43.0


From d72e809fc8dbeb059ce32923edd2212d73493043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 10/22] fix: define_varlen rejects Cell-like #[controls_layout]
 fields

Cell::get is a const fn, so that an array length could be read from a Cell and
then changed through a shared reference, giving out-of-bounds access in safe code.
---
 varlen_macro/src/lib.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index b135ff3..c5372f5 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -91,7 +91,9 @@ use syn::{Attribute, Data, DeriveInput, Field, Fields, Ident, Type, Visibility};
 /// * `#[controls_layout]` - this marks a field as usable to specify the
 ///   length of a `#[varlen_array]` field. It also removes mutable access
 ///   to the field. Mutable access risks causing memory unsafety, in which
-///   the length of the array is recorded incorrectly in memory.
+///   the length of the array is recorded incorrectly in memory. For the
+///   same reason the type of the field must be `Sync`, which rules out
+///   `Cell` and other unsynchronized interior mutability.
 ///
 /// # Generated API
 ///
@@ -288,6 +290,17 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
             pub(super) mod lengths {
                 use super::*;
 
+                #[allow(dead_code)]
+                const fn requires_sync<T: ?::core::marker::Sized + ::core::marker::Sync>() {}
+
+                // Rejects fields with `Cell`-like interior mutability, which would permit
+                // changing the array lengths through a shared reference.
+                const _: () = {
+                    #(
+                        requires_sync::<#lengths_ty>();
+                    )*
+                };
+
                 #(
                     #[inline(always)]
                     #[allow(unused_variables)]
-- 
2.43.0


From 3c8f5ab4a7d6ef51699564981a7c5b534fc8412a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:13 +0000
Subject: [PATCH 11/22] fix: define_varlen's generated names do not clash with
 field names

Fields named like the generated code's own names (size, lengths, a and
a_len, a1 and a_1, raw identifiers), a struct lifetime named 'a, and a
struct named like a keyword (Type) did not compile.
---
 varlen_macro/src/lib.rs | 83 +++++++++++++++++++++++++----------------
 1 file changed, 50 insertions(+), 33 deletions(-)

diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index c5372f5..3a42a27 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -7,6 +7,7 @@ use std::collections::HashSet;
 use convert_case::{Case, Casing};
 use proc_macro2::TokenStream;
 use quote::{format_ident, quote, quote_spanned};
+use syn::ext::IdentExt;
 use syn::{parse_quote, Generics, GenericParam, Lifetime};
 use syn::punctuated::Punctuated;
 use syn::spanned::Spanned;
@@ -192,7 +193,7 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
     let (tyvis, tyvis_inner) = SimpleVisibility::try_parse(&d.vis)?;
     let tyname = d.ident;
 
-    let mut mod_name = format_ident!("{}", tyname.to_string().to_case(Case::Snake));
+    let mut mod_name = mk_mod_ident(&tyname);
     mod_name.set_span(proc_macro2::Span::call_site());
 
     let FieldGroups {
@@ -273,7 +274,7 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
 
             /// Array offsets and lengths for all trailing arrays and nested types.
             #tyvis_inner struct VarLenLayout<#(#layout_generics_structdef),*> #layout_generics_where {
-                pub(super) size: usize,
+                pub(super) __varlen_size: usize,
                 #(
                     pub(super) #varlen_ident: usize,
                     pub(super) #varlen_layout_ident: #varlen_layout_ty,
@@ -283,7 +284,7 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
             impl<#(#layout_generics_impl),*> ::varlen::Layout for VarLenLayout<#(#layout_generics_apply),*> #layout_generics_where {
                 #[inline(always)]
                 fn size(&self) -> usize {
-                    self.size
+                    self.__varlen_size
                 }
             }
 
@@ -317,14 +318,14 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
                 )*
             }
 
-            #tyvis_inner struct Muts<'a #(, #generics_structdef)*> {
+            #tyvis_inner struct Muts<'__varlen #(, #generics_structdef)*> {
                 #(
                     #all_attr
                     #all_vis_inner #all_ident: #all_mut_ty,
                 )*
             }
 
-            #tyvis_inner struct Refs<'a #(, #generics_structdef)*> {
+            #tyvis_inner struct Refs<'__varlen #(, #generics_structdef)*> {
                 #(
                     #all_attr
                     #all_vis_inner #all_ident: #all_ref_ty,
@@ -359,21 +360,21 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
 
             #[inline(always)]
             fn calculate_layout(&self) -> #mod_name::VarLenLayout<#(#layout_generics_apply),*> {
-                let lengths = (
+                let __varlen_lengths = (
                     #(
                         &self.#lengths_ident,
                     )*
                 );
-                let size = ::core::mem::size_of::<Self>();
+                let __varlen_size = ::core::mem::size_of::<Self>();
                 #(
-                    let ((#varlen_ident, #varlen_layout_ident, size)) = #varlen_cat_field_fast;
+                    let ((#varlen_ident, #varlen_layout_ident, __varlen_size)) = #varlen_cat_field_fast;
                 )*
                 #mod_name::VarLenLayout{
                     #(
                         #varlen_ident,
                         #varlen_layout_ident,
                     )*
-                    size,
+                    __varlen_size,
                 }
             }
 
@@ -407,21 +408,21 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
                 #generics_where {
             #[inline(always)]
             fn calculate_layout_cautious(&self) -> ::core::option::Option<#mod_name::VarLenLayout<#(#layout_generics_apply),*>> {
-                let lengths = (
+                let __varlen_lengths = (
                     #(
                         &self.#lengths_ident,
                     )*
                 );
-                let size = ::core::mem::size_of::<#tyname<#(#generics_apply),*>>();
+                let __varlen_size = ::core::mem::size_of::<#tyname<#(#generics_apply),*>>();
                 #(
-                    let (#varlen_ident, #varlen_layout_ident, size) = #varlen_cat_field_cautious?;
+                    let (#varlen_ident, #varlen_layout_ident, __varlen_size) = #varlen_cat_field_cautious?;
                 )*
                 ::core::option::Option::Some(#mod_name::VarLenLayout{
                     #(
                         #varlen_ident,
                         #varlen_layout_ident,
                     )*
-                    size,
+                    __varlen_size,
                 })
             }
 
@@ -580,11 +581,27 @@ impl SimpleVisibility {
 }
 
 fn mk_layout_ident(ident: &Ident) -> Ident {
-    format_ident!("{}_layout", ident)
+    format_ident!("__varlen_layout_{}", ident)
 }
 
-fn mk_init_ident(ident: &Ident) -> Ident {
-    format_ident!("Init{}", ident.to_string().to_case(Case::UpperCamel))
+/// Name of the type parameter for the initializer of a field. Differs from the names in `used`.
+fn mk_init_ident(ident: &Ident, used: &[Ident]) -> Ident {
+    let mut init_ident =
+        format_ident!("Init{}", ident.unraw().to_string().to_case(Case::UpperCamel));
+    while used.contains(&init_ident) {
+        init_ident = format_ident!("{}X", init_ident);
+    }
+    init_ident
+}
+
+/// Name of the generated module for a struct.
+fn mk_mod_ident(tyname: &Ident) -> Ident {
+    let name = tyname.unraw().to_string().to_case(Case::Snake);
+    match syn::parse_str::<Ident>(&name) {
+        Ok(_) => format_ident!("{}", name),
+        // A keyword, such as `type` for a struct named `Type`.
+        Err(_) => Ident::new_raw(&name, proc_macro2::Span::call_site()),
+    }
 }
 
 #[derive(Clone)]
@@ -745,9 +762,9 @@ struct AllFields {
     decl_ty: Vec<TokenStream>,
     /// Type in the Init declaration
     init_ty: Vec<TokenStream>,
-    /// Reference type, with lifetime 'a.
+    /// Reference type, with lifetime '__varlen.
     ref_ty: Vec<TokenStream>,
-    /// Mutable reference type, with lifetime 'a.
+    /// Mutable reference type, with lifetime '__varlen.
     mut_ty: Vec<TokenStream>,
     /// Writes to the tail if necessary, then evaluates to the initializer for this field.
     init_field: Vec<TokenStream>,
@@ -820,10 +837,10 @@ impl FieldGroups {
         self.all_fields.init_ty.push(quote_spanned! { span => #ty });
         self.all_fields
             .ref_ty
-            .push(quote_spanned! { span => &'a #ty });
+            .push(quote_spanned! { span => &'__varlen #ty });
         self.all_fields
             .mut_ty
-            .push(quote_spanned! { span => &'a mut #ty });
+            .push(quote_spanned! { span => &'__varlen mut #ty });
         self.all_fields
             .init_field
             .push(quote_spanned! { span => self.#ident });
@@ -856,10 +873,10 @@ impl FieldGroups {
         self.all_fields.init_ty.push(quote_spanned! { span => #ty });
         self.all_fields
             .ref_ty
-            .push(quote_spanned! { span => &'a #ty });
+            .push(quote_spanned! { span => &'__varlen #ty });
         self.all_fields
             .mut_ty
-            .push(quote_spanned! { span => &'a #ty });
+            .push(quote_spanned! { span => &'__varlen #ty });
         self.all_fields
             .init_field
             .push(quote_spanned! { span => self.#ident });
@@ -882,7 +899,7 @@ impl FieldGroups {
         let meta = OneMeta::parse(&f)?;
         let ident = f.ident.unwrap();
         let layout_ident = mk_layout_ident(&ident);
-        let init_ident = mk_init_ident(&ident);
+        let init_ident = mk_init_ident(&ident, &self.varlen_fields.init_ty_params);
         let span = f.ty.span();
         let ty = f.ty;
 
@@ -899,12 +916,12 @@ impl FieldGroups {
         self.varlen_fields
             .cat_field_cautious
             .push(quote_spanned! { span =>
-                ::varlen::macro_support::cat_field_cautious::<#ty, _>(&self.#ident, size)
+                ::varlen::macro_support::cat_field_cautious::<#ty, _>(&self.#ident, __varlen_size)
             });
         self.varlen_fields
             .cat_field_fast
             .push(quote_spanned! { span =>
-                ::varlen::macro_support::cat_field_fast::<#ty, _>(self, size)
+                ::varlen::macro_support::cat_field_fast::<#ty, _>(self, __varlen_size)
             });
         self.varlen_fields
             .align_of_field
@@ -921,10 +938,10 @@ impl FieldGroups {
             .push(quote_spanned! { span => #init_ident });
         self.all_fields
             .ref_ty
-            .push(quote_spanned! { span => &'a #ty });
+            .push(quote_spanned! { span => &'__varlen #ty });
         self.all_fields
             .mut_ty
-            .push(quote_spanned! { span => ::core::pin::Pin<&'a mut #ty> });
+            .push(quote_spanned! { span => ::core::pin::Pin<&'__varlen mut #ty> });
         self.all_fields.init_field.push(quote_spanned! { span =>
             ::varlen::macro_support::init_field(self.#ident, p, layout.#ident, layout.#layout_ident)
         });
@@ -946,8 +963,8 @@ impl FieldGroups {
     fn push_varlen_array(&mut self, f: Field, mod_name: &Ident) -> Result<(), Error> {
         let meta = OneMeta::parse(&f)?;
         let ident = f.ident.unwrap();
-        let len_ident = format_ident!("{}_len", &ident);
-        let init_ident = mk_init_ident(&ident);
+        let len_ident = format_ident!("__varlen_len_{}", &ident);
+        let init_ident = mk_init_ident(&ident, &self.varlen_fields.init_ty_params);
         let span = f.ty.span();
         let ty = f.ty;
 
@@ -983,13 +1000,13 @@ impl FieldGroups {
             .cat_field_cautious
             .push(quote_spanned! { span =>
                 ::varlen::macro_support::cat_array_field_cautious::<#elem_ty>(
-                    #mod_name::lengths::#len_ident(lengths), size)
+                    #mod_name::lengths::#len_ident(__varlen_lengths), __varlen_size)
             });
         self.varlen_fields
             .cat_field_fast
             .push(quote_spanned! { span =>
                 ::varlen::macro_support::cat_array_field_fast::<#elem_ty>(
-                    #mod_name::lengths::#len_ident(lengths), size)
+                    #mod_name::lengths::#len_ident(__varlen_lengths), __varlen_size)
             });
         self.varlen_fields
             .align_of_field
@@ -1006,10 +1023,10 @@ impl FieldGroups {
             .push(quote_spanned! { span => ::varlen::marker::ArrayMarker<#elem_ty> });
         self.all_fields
             .ref_ty
-            .push(quote_spanned! { span => &'a [#elem_ty] });
+            .push(quote_spanned! { span => &'__varlen [#elem_ty] });
         self.all_fields
             .mut_ty
-            .push(quote_spanned! { span => &'a mut [#elem_ty] });
+            .push(quote_spanned! { span => &'__varlen mut [#elem_ty] });
         self.all_fields.init_field.push(quote_spanned! { span =>
             ::varlen::macro_support::init_array(self.#ident, p, layout.#ident, layout.#len_ident)
         });
-- 
2.43.0


From 20ea5ff24eb2adafe514e9bab28fcdddab772d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:00 +0000
Subject: [PATCH 12/22] fix: define_varlen supports generics in fixed fields
 and length expressions

Type, const and lifetime parameters used by ordinary or layout-controlling
fields, by length expressions or in where clauses did not compile.
---
 varlen_macro/src/lib.rs | 168 ++++++++++++++++++++++++++++++----------
 1 file changed, 125 insertions(+), 43 deletions(-)

diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index 3a42a27..20cc520 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -196,6 +196,19 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
     let mut mod_name = mk_mod_ident(&tyname);
     mod_name.set_span(proc_macro2::Span::call_site());
 
+    // Arguments for the length functions, where lifetimes are inferred.
+    let len_fn_args: Vec<_> = d
+        .generics
+        .params
+        .iter()
+        .filter_map(|param| match param {
+            GenericParam::Const(c) => Some(c.ident.clone()),
+            GenericParam::Type(t) => Some(t.ident.clone()),
+            GenericParam::Lifetime(_) => None,
+        })
+        .collect();
+    let len_fn_args = quote!( ::<#(#len_fn_args),*> );
+
     let FieldGroups {
         lengths:
             LengthFields {
@@ -207,6 +220,7 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
                         ..
                     },
                 tys: lengths_ty,
+                ty_refs: lengths_ty_refs,
             },
         len_exprs: LengthExprs {
             len_expr,
@@ -246,13 +260,19 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
                 mut_field: all_mut_field,
                 drop_field: all_drop_field,
                 needs_vdrop: all_needs_vdrop,
+                init_ty_refs,
             },
-    } = parse_fields(fields, &mod_name)?;
+    } = parse_fields(fields, &mod_name, &len_fn_args)?;
 
     let (generics_structdef, generics_impl, generics_apply, generics_where) 
-        = parse_generics(&d.generics, None);
+        = parse_generics(&d.generics);
     let (layout_generics_structdef, layout_generics_impl, layout_generics_apply, layout_generics_where) 
-        = parse_generics(&d.generics, Some(varlen_layout_ty_refs));
+        = parse_generics(&filter_generics(&d.generics, &varlen_layout_ty_refs));
+    let (_, init_generics_impl, init_generics_apply, init_generics_where)
+        = parse_generics(&filter_generics(&d.generics, &init_ty_refs));
+    let (controllers_generics_structdef, _, controllers_generics_apply, controllers_generics_where)
+        = parse_generics(&filter_generics(&d.generics, &lengths_ty_refs));
+    let len_fn_generics = quote!( <#(#generics_impl),*> );
 
     // TODO(reinerp): This is potentially quadratic syntax size. Create type synonym instead,
     // to keep it linear.
@@ -296,43 +316,44 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
 
                 // Rejects fields with `Cell`-like interior mutability, which would permit
                 // changing the array lengths through a shared reference.
-                const _: () = {
+                #[allow(dead_code)]
+                const fn check_sync<#(#generics_impl),*>() #generics_where {
                     #(
                         requires_sync::<#lengths_ty>();
                     )*
-                };
+                }
 
                 #(
                     #[inline(always)]
                     #[allow(unused_variables)]
-                    pub(in super::super) const fn #len_ident(#len_fn_arg) -> usize {
+                    pub(in super::super) const fn #len_ident #len_fn_generics (#len_fn_arg) -> usize #generics_where {
                         #len_expr
                     }
                 )*
             }
 
-            #tyvis_inner struct Init< #(#varlen_init_ty_param,)* > {
+            #tyvis_inner struct Init< #(#init_generics_impl,)* #(#varlen_init_ty_param,)* > #init_generics_where {
                 #(
                     #all_attr
                     #all_vis_inner #all_ident: #all_init_ty,
                 )*
             }
 
-            #tyvis_inner struct Muts<'__varlen #(, #generics_structdef)*> {
+            #tyvis_inner struct Muts<'__varlen #(, #generics_structdef)*> #generics_where {
                 #(
                     #all_attr
                     #all_vis_inner #all_ident: #all_mut_ty,
                 )*
             }
 
-            #tyvis_inner struct Refs<'__varlen #(, #generics_structdef)*> {
+            #tyvis_inner struct Refs<'__varlen #(, #generics_structdef)*> #generics_where {
                 #(
                     #all_attr
                     #all_vis_inner #all_ident: #all_ref_ty,
                 )*
             }
 
-            #tyvis_inner struct LayoutControllers {
+            #tyvis_inner struct LayoutControllers<#(#controllers_generics_structdef),*> #controllers_generics_where {
                 #(
                     #lengths_attr
                     #lengths_vis_inner #lengths_ident: #lengths_ty,
@@ -404,7 +425,7 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
 
         unsafe impl< #(#generics_impl,)* #( #varlen_init_ty_param: #varlen_init_ty_constraint, )* >
                 ::varlen::Initializer<#tyname<#(#generics_apply),*>> 
-                for #mod_name::Init< #( #varlen_init_ty_param, )* > 
+                for #mod_name::Init< #(#init_generics_apply,)* #( #varlen_init_ty_param, )* > 
                 #generics_where {
             #[inline(always)]
             fn calculate_layout_cautious(&self) -> ::core::option::Option<#mod_name::VarLenLayout<#(#layout_generics_apply),*>> {
@@ -466,7 +487,7 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
             }
 
             #tyvis fn try_set_layout_controllers(
-                mut self: ::core::pin::Pin<&mut Self>, layout_controllers: #mod_name::LayoutControllers
+                mut self: ::core::pin::Pin<&mut Self>, layout_controllers: #mod_name::LayoutControllers<#(#controllers_generics_apply),*>
             ) -> ::core::result::Result<(), ::varlen::macro_support::LayoutMismatch> {
                 let lengths_before = (
                     #(
@@ -481,8 +502,8 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
                 let valid = true
                     #(
                         & (
-                            #mod_name::lengths::#len_ident(lengths_before) ==
-                            #mod_name::lengths::#len_ident(lengths_after)
+                            #mod_name::lengths::#len_ident #len_fn_args (lengths_before) ==
+                            #mod_name::lengths::#len_ident #len_fn_args (lengths_after)
                         )
                     )*;
                 if valid {
@@ -666,6 +687,8 @@ struct LengthFields {
     meta: Meta,
     /// Type of the field.
     tys: Vec<Type>,
+    /// Generics referenced by the types.
+    ty_refs: GenericRefs,
 }
 
 impl LengthFields {
@@ -673,6 +696,7 @@ impl LengthFields {
         LengthFields {
             meta: Meta::new(),
             tys: Vec::new(),
+            ty_refs: GenericRefs::new(),
         }
     }
 }
@@ -695,20 +719,87 @@ impl GenericRefs {
     fn add(&mut self, ty: &Type) {
         syn::visit::visit_type(self, ty);
     }
+
+    /// A generic parameter can only be the first segment of a path, as in `T`, `T::Assoc` or `N`.
+    fn add_path_root(&mut self, path: &syn::Path) {
+        if path.leading_colon.is_none() {
+            self.idents.insert(path.segments[0].ident.clone());
+        }
+    }
+
+    fn contains(&self, param: &GenericParam) -> bool {
+        match param {
+            GenericParam::Const(c) => self.idents.contains(&c.ident),
+            GenericParam::Type(t) => self.idents.contains(&t.ident),
+            GenericParam::Lifetime(l) => self.lifetimes.contains(&l.lifetime),
+        }
+    }
+
+    /// True if all parameters of `generics` which are referenced here are among those in `filter`.
+    fn is_covered_by(&self, generics: &Generics, filter: &GenericRefs) -> bool {
+        generics
+            .params
+            .iter()
+            .all(|param| !self.contains(param) || filter.contains(param))
+    }
+}
+
+/// Restricts `generics` to the parameters in `filter`, and the bounds which mention only those.
+fn filter_generics(generics: &Generics, filter: &GenericRefs) -> Generics {
+    let mut result = generics.clone();
+    result.params = result
+        .params
+        .into_iter()
+        .filter(|param| filter.contains(param))
+        .map(|mut param| {
+            if let GenericParam::Type(t) = &mut param {
+                let bounds = std::mem::take(&mut t.bounds);
+                t.bounds = bounds
+                    .into_iter()
+                    .filter(|bound| {
+                        let mut refs = GenericRefs::new();
+                        syn::visit::visit_type_param_bound(&mut refs, bound);
+                        refs.is_covered_by(generics, filter)
+                    })
+                    .collect();
+            }
+            if let GenericParam::Lifetime(l) = &mut param {
+                let bounds = std::mem::take(&mut l.bounds);
+                l.bounds = bounds
+                    .into_iter()
+                    .filter(|bound| filter.lifetimes.contains(bound))
+                    .collect();
+            }
+            param
+        })
+        .collect();
+    if let Some(where_clause) = &mut result.where_clause {
+        let predicates = std::mem::take(&mut where_clause.predicates);
+        where_clause.predicates = predicates
+            .into_iter()
+            .filter(|predicate| {
+                let mut refs = GenericRefs::new();
+                syn::visit::visit_where_predicate(&mut refs, predicate);
+                refs.is_covered_by(generics, filter)
+            })
+            .collect();
+    }
+    result
 }
 
 impl<'ast> syn::visit::Visit<'ast> for GenericRefs {
     fn visit_type_path(&mut self, node: &'ast syn::TypePath) {
         if node.qself.is_none() {
-            if let Some(ident) = node.path.get_ident() {
-                self.idents.insert(ident.clone());
-                return;
-            }
+            self.add_path_root(&node.path);
         }
-        if let Some(it) = &node.qself {
-            self.visit_qself(it);
+        syn::visit::visit_type_path(self, node);
+    }
+
+    fn visit_expr_path(&mut self, node: &'ast syn::ExprPath) {
+        if node.qself.is_none() {
+            self.add_path_root(&node.path);
         }
-        self.visit_path(&node.path);
+        syn::visit::visit_expr_path(self, node);
     }
 
     fn visit_lifetime(&mut self, node: &'ast Lifetime) {
@@ -776,6 +867,8 @@ struct AllFields {
     drop_field: Vec<TokenStream>,
     /// Does this field need vdrop?
     needs_vdrop: Vec<TokenStream>,
+    /// Generics referenced by the declared types in the Init declaration.
+    init_ty_refs: GenericRefs,
 }
 
 impl AllFields {
@@ -791,6 +884,7 @@ impl AllFields {
             mut_field: Vec::new(),
             drop_field: Vec::new(),
             needs_vdrop: Vec::new(),
+            init_ty_refs: GenericRefs::new(),
         }
     }
 }
@@ -832,6 +926,7 @@ impl FieldGroups {
         let span = f.ty.span();
         let ty = f.ty;
 
+        self.all_fields.init_ty_refs.add(&ty);
         self.all_fields.meta.push(meta);
         self.all_fields.decl_ty.push(quote_spanned! { span => #ty });
         self.all_fields.init_ty.push(quote_spanned! { span => #ty });
@@ -867,6 +962,8 @@ impl FieldGroups {
 
         self.lengths.meta.push(meta.clone());
         self.lengths.tys.push(ty.clone());
+        self.lengths.ty_refs.add(&ty);
+        self.all_fields.init_ty_refs.add(&ty);
 
         self.all_fields.meta.push(meta);
         self.all_fields.decl_ty.push(quote_spanned! { span => #ty });
@@ -960,7 +1057,7 @@ impl FieldGroups {
         Ok(())
     }
 
-    fn push_varlen_array(&mut self, f: Field, mod_name: &Ident) -> Result<(), Error> {
+    fn push_varlen_array(&mut self, f: Field, mod_name: &Ident, len_fn_args: &TokenStream) -> Result<(), Error> {
         let meta = OneMeta::parse(&f)?;
         let ident = f.ident.unwrap();
         let len_ident = format_ident!("__varlen_len_{}", &ident);
@@ -1000,13 +1097,13 @@ impl FieldGroups {
             .cat_field_cautious
             .push(quote_spanned! { span =>
                 ::varlen::macro_support::cat_array_field_cautious::<#elem_ty>(
-                    #mod_name::lengths::#len_ident(__varlen_lengths), __varlen_size)
+                    #mod_name::lengths::#len_ident #len_fn_args (__varlen_lengths), __varlen_size)
             });
         self.varlen_fields
             .cat_field_fast
             .push(quote_spanned! { span =>
                 ::varlen::macro_support::cat_array_field_fast::<#elem_ty>(
-                    #mod_name::lengths::#len_ident(__varlen_lengths), __varlen_size)
+                    #mod_name::lengths::#len_ident #len_fn_args (__varlen_lengths), __varlen_size)
             });
         self.varlen_fields
             .align_of_field
@@ -1054,7 +1151,7 @@ enum FieldType {
     VarlenArray,
 }
 
-fn parse_fields(fields: Punctuated<Field, Comma>, mod_name: &Ident) -> Result<FieldGroups, Error> {
+fn parse_fields(fields: Punctuated<Field, Comma>, mod_name: &Ident, len_fn_args: &TokenStream) -> Result<FieldGroups, Error> {
     let varlen_attr: Attribute = parse_quote! { #[varlen] };
     let varlen_array_attr: Attribute = parse_quote! { #[varlen_array] };
     let layout_attr: Attribute = parse_quote! { #[controls_layout] };
@@ -1096,7 +1193,7 @@ fn parse_fields(fields: Punctuated<Field, Comma>, mod_name: &Ident) -> Result<Fi
             FieldType::Normal => field_groups.push_normal(f)?,
             FieldType::Length => field_groups.push_length(f)?,
             FieldType::Varlen => field_groups.push_varlen(f)?,
-            FieldType::VarlenArray => field_groups.push_varlen_array(f, mod_name)?,
+            FieldType::VarlenArray => field_groups.push_varlen_array(f, mod_name, len_fn_args)?,
         }
     }
     Ok(field_groups)
@@ -1104,20 +1201,15 @@ fn parse_fields(fields: Punctuated<Field, Comma>, mod_name: &Ident) -> Result<Fi
 
 
 
-fn parse_generics(generics: &Generics, filter: Option<GenericRefs>) -> (Vec<GenericParam>, Vec<GenericParam>, Vec<TokenStream>, TokenStream) {
+fn parse_generics(generics: &Generics) -> (Vec<GenericParam>, Vec<GenericParam>, Vec<TokenStream>, TokenStream) {
     let mut structdef_params = Vec::new();
     let where_clause = &generics.where_clause;
     let mut impl_params = Vec::new();
     let mut apply_params = Vec::new();
-    'outer: for param in &generics.params {
+    for param in &generics.params {
         let (structdef_param, apply_param, impl_param) = match param {
             GenericParam::Const(c) => {
                 let ident = &c.ident;
-                if let Some(filter) = &filter {
-                    if !filter.idents.contains(&ident) {
-                        continue 'outer;
-                    }
-                }
                 let structdef_param = c.clone();
                 let mut apply_param = c.clone();
                 apply_param.default = None;
@@ -1125,11 +1217,6 @@ fn parse_generics(generics: &Generics, filter: Option<GenericRefs>) -> (Vec<Gene
             },
             GenericParam::Type(c) => {
                 let ident = &c.ident;
-                if let Some(filter) = &filter {
-                    if !filter.idents.contains(&ident) {
-                       continue 'outer;
-                    }
-                }
                 let structdef_param = c.clone();
                 let mut apply_param = c.clone();
                 apply_param.default = None;
@@ -1138,11 +1225,6 @@ fn parse_generics(generics: &Generics, filter: Option<GenericRefs>) -> (Vec<Gene
             },
             GenericParam::Lifetime(c) => {
                 let lifetime = c.lifetime.clone();
-                if let Some(filter) = &filter {
-                    if !filter.lifetimes.contains(&lifetime) {
-                        continue 'outer;
-                    }
-                }
                 let structdef_param = c.clone();
                 let apply_param = c.clone();
                 (GenericParam::Lifetime(structdef_param), quote!( #lifetime ),
-- 
2.43.0


From 162be20cfb4dcc892869474e1b05c9b407a24606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:21 +0000
Subject: [PATCH 13/22] fix: markers carry the interior mutability of the tail
 they stand for

---
 varlen/src/marker.rs | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/varlen/src/marker.rs b/varlen/src/marker.rs
index 9f5f051..50fc9c1 100644
--- a/varlen/src/marker.rs
+++ b/varlen/src/marker.rs
@@ -34,7 +34,11 @@
 ///
 /// This marker type also plays an important safety role, preventing you from creating a
 /// variable-length object without also creating a valid tail for it, unless you use unsafe code.
-pub struct FieldMarker<T>(core::marker::PhantomPinned, core::marker::PhantomData<T>);
+pub struct FieldMarker<T>(
+    core::marker::PhantomPinned,
+    core::marker::PhantomData<T>,
+    TailMutability<T>,
+);
 
 impl<T> FieldMarker<T> {
     /// The only way to construct a `FieldMarker`.
@@ -48,7 +52,11 @@ impl<T> FieldMarker<T> {
     /// for this field.
     #[allow(rustdoc::missing_doc_code_examples)]
     pub unsafe fn new_unchecked() -> Self {
-        FieldMarker(core::marker::PhantomPinned, core::marker::PhantomData)
+        FieldMarker(
+            core::marker::PhantomPinned,
+            core::marker::PhantomData,
+            TailMutability::NEW,
+        )
     }
 }
 
@@ -87,7 +95,11 @@ impl<T> FieldMarker<T> {
 ///
 /// This marker type also plays an important safety role, preventing you from creating a
 /// variable-length object without also creating a valid tail for it, unless you use unsafe code.
-pub struct ArrayMarker<T>(core::marker::PhantomPinned, core::marker::PhantomData<[T]>);
+pub struct ArrayMarker<T>(
+    core::marker::PhantomPinned,
+    core::marker::PhantomData<[T]>,
+    TailMutability<T>,
+);
 
 impl<T> ArrayMarker<T> {
     /// The only way to construct an `ArrayMarker`.
@@ -101,6 +113,22 @@ impl<T> ArrayMarker<T> {
     /// for this field.
     #[allow(rustdoc::missing_doc_code_examples)]
     pub unsafe fn new_unchecked() -> Self {
-        ArrayMarker(core::marker::PhantomPinned, core::marker::PhantomData)
+        ArrayMarker(
+            core::marker::PhantomPinned,
+            core::marker::PhantomData,
+            TailMutability::NEW,
+        )
     }
 }
+
+/// A zero-size, unaligned type that has interior mutability if and only if `T` has it.
+///
+/// `PhantomData<T>` does not carry interior mutability. Without it, a shared reference to an
+/// object with, say, `Cell<u8>` values in its tail would promise the compiler that the memory it
+/// was derived for is not modified.
+#[repr(packed)]
+struct TailMutability<T>(core::mem::ManuallyDrop<[T; 0]>);
+
+impl<T> TailMutability<T> {
+    const NEW: Self = TailMutability(core::mem::ManuallyDrop::new([]));
+}
-- 
2.43.0


From 4984adc8f21c6dbd8a591b24d70c02cd267d3dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:42 +0000
Subject: [PATCH 14/22] fix: refuse array lengths that do not fit the address
 space on 32-bit platforms

---
 varlen/src/array.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/varlen/src/array.rs b/varlen/src/array.rs
index 5abd590..b3db3a5 100644
--- a/varlen/src/array.rs
+++ b/varlen/src/array.rs
@@ -355,6 +355,10 @@ unsafe impl<T, Len: ArrayLen, Init: ArrayInitializer<T>> Initializer<Array<T, Le
 {
     #[inline(always)]
     fn calculate_layout_cautious(&self) -> Option<ArrayLayout> {
+        // `as_usize` truncates lengths that don't fit (such as a `u64` on 32-bit platforms).
+        if !private::Sealed::fits_usize(self.0) {
+            return None;
+        }
         let offset = core::mem::size_of::<Array<T, Len>>();
         let (array_offset, array_len, size) =
             crate::macro_support::cat_array_field_cautious::<T>(self.0.as_usize(), offset)?;
@@ -424,7 +428,12 @@ impl ArrayLen for usize {
         Some(x)
     }
 }
-impl private::Sealed for usize {}
+impl private::Sealed for usize {
+    #[inline(always)]
+    fn fits_usize(self) -> bool {
+        true
+    }
+}
 
 macro_rules! impl_arraylen {
     ($t:ty) => {
@@ -439,7 +448,12 @@ macro_rules! impl_arraylen {
                 Self::try_from(x).ok()
             }
         }
-        impl private::Sealed for $t {}
+        impl private::Sealed for $t {
+            #[inline(always)]
+            fn fits_usize(self) -> bool {
+                usize::try_from(self).is_ok()
+            }
+        }
     };
 }
 impl_arraylen!(u8);
@@ -448,5 +462,8 @@ impl_arraylen!(u32);
 impl_arraylen!(u64);
 
 mod private {
-    pub trait Sealed {}
+    pub trait Sealed {
+        /// Whether the length can be represented as a [`usize`].
+        fn fits_usize(self) -> bool;
+    }
 }
-- 
2.43.0


From 3216d7c5dcd4dd91b87673516b802e5687cce604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:09 +0000
Subject: [PATCH 15/22] fix: define_varlen accepts structs named Async, Await,
 Dyn, Gen and Try

---
 varlen_macro/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index 20cc520..35e36a7 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -618,10 +618,12 @@ fn mk_init_ident(ident: &Ident, used: &[Ident]) -> Ident {
 /// Name of the generated module for a struct.
 fn mk_mod_ident(tyname: &Ident) -> Ident {
     let name = tyname.unraw().to_string().to_case(Case::Snake);
+    // `syn` accepts as identifiers the keywords that only some editions have.
+    let edition_keyword = matches!(name.as_str(), "async" | "await" | "dyn" | "gen" | "try");
     match syn::parse_str::<Ident>(&name) {
-        Ok(_) => format_ident!("{}", name),
+        Ok(_) if !edition_keyword => format_ident!("{}", name),
         // A keyword, such as `type` for a struct named `Type`.
-        Err(_) => Ident::new_raw(&name, proc_macro2::Span::call_site()),
+        _ => Ident::new_raw(&name, proc_macro2::Span::call_site()),
     }
 }
 
-- 
2.43.0


From 45cafd1ba389ebe8834cdb9245b21654cdeb67cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:58 +0000
Subject: [PATCH 16/22] fix: find the generic parameters inside macro
 invocations in field types

---
 varlen_macro/src/lib.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index 35e36a7..413db25 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -5,7 +5,7 @@
 use std::collections::HashSet;
 
 use convert_case::{Case, Casing};
-use proc_macro2::TokenStream;
+use proc_macro2::{TokenStream, TokenTree};
 use quote::{format_ident, quote, quote_spanned};
 use syn::ext::IdentExt;
 use syn::{parse_quote, Generics, GenericParam, Lifetime};
@@ -729,6 +729,26 @@ impl GenericRefs {
         }
     }
 
+    /// Adds whatever may be a parameter among the arguments of a macro.
+    fn add_tokens(&mut self, tokens: TokenStream) {
+        let mut after_apostrophe = false;
+        for token in tokens {
+            let apostrophe = matches!(&token, TokenTree::Punct(p) if p.as_char() == '\'');
+            match token {
+                TokenTree::Ident(ident) if after_apostrophe => {
+                    let lifetime = Lifetime::new(&format!("'{}", ident), ident.span());
+                    self.lifetimes.insert(lifetime);
+                }
+                TokenTree::Ident(ident) => {
+                    self.idents.insert(ident);
+                }
+                TokenTree::Group(group) => self.add_tokens(group.stream()),
+                TokenTree::Punct(_) | TokenTree::Literal(_) => {}
+            }
+            after_apostrophe = apostrophe;
+        }
+    }
+
     fn contains(&self, param: &GenericParam) -> bool {
         match param {
             GenericParam::Const(c) => self.idents.contains(&c.ident),
@@ -807,6 +827,10 @@ impl<'ast> syn::visit::Visit<'ast> for GenericRefs {
     fn visit_lifetime(&mut self, node: &'ast Lifetime) {
         self.lifetimes.insert(node.clone());
     }
+
+    fn visit_macro(&mut self, node: &'ast syn::Macro) {
+        self.add_tokens(node.tokens.clone());
+    }
 }
 
 /// Fields associated with variable-length (array or VarLen) types.
-- 
2.43.0


From a589dd485d65fd478c3ab128e621baa37b735f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:00 +0000
Subject: [PATCH 17/22] fix: let #[controls_layout] references rely on their
 implied lifetime bounds

---
 varlen_macro/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index 413db25..a864406 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -317,7 +317,7 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
                 // Rejects fields with `Cell`-like interior mutability, which would permit
                 // changing the array lengths through a shared reference.
                 #[allow(dead_code)]
-                const fn check_sync<#(#generics_impl),*>() #generics_where {
+                const fn check_sync<#(#generics_impl),*>(_: (#(& #lengths_ty,)*)) #generics_where {
                     #(
                         requires_sync::<#lengths_ty>();
                     )*
-- 
2.43.0


From 8d21c8af5cc75235d38e3b53b6845341d4398fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:03 +0000
Subject: [PATCH 18/22] fix: do not parse length expressions as statements

---
 varlen_macro/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index a864406..d2af7b2 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -327,7 +327,9 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
                     #[inline(always)]
                     #[allow(unused_variables)]
                     pub(in super::super) const fn #len_ident #len_fn_generics (#len_fn_arg) -> usize #generics_where {
-                        #len_expr
+                        // Not as a statement, where `if c { 1 } else { 2 } + 3` has another meaning.
+                        let __varlen_len: usize = #len_expr;
+                        __varlen_len
                     }
                 )*
             }
-- 
2.43.0


From a538b272053ecbf1c5651847c69ec727f63e946b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:59 +0000
Subject: [PATCH 19/22] fix: newtype macros call the traits' items, not
 inherent ones of the same name

---
 varlen/src/newtype.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/varlen/src/newtype.rs b/varlen/src/newtype.rs
index f380b2f..33c29f4 100644
--- a/varlen/src/newtype.rs
+++ b/varlen/src/newtype.rs
@@ -192,7 +192,7 @@ macro_rules! define_varlen_newtype {
             type Layout = <$inner as $crate::VarLen>::Layout;
             #[inline(always)]
             fn calculate_layout(&self) -> Self::Layout {
-                self.0.calculate_layout()
+                <$inner as $crate::VarLen>::calculate_layout(&self.0)
             }
 
             const ALIGN: usize = <$inner as $crate::VarLen>::ALIGN;
@@ -200,7 +200,7 @@ macro_rules! define_varlen_newtype {
 
             #[inline(always)]
             unsafe fn vdrop(self: ::core::pin::Pin<&mut Self>, layout: Self::Layout) {
-                if !Self::NEEDS_VDROP {
+                if !<Self as $crate::VarLen>::NEEDS_VDROP {
                     return;
                 }
                 <$inner as $crate::VarLen>::vdrop(self.map_unchecked_mut(|outer| &mut outer.0), layout);
@@ -215,7 +215,7 @@ macro_rules! define_varlen_newtype {
 
             #[inline(always)]
             unsafe fn initialize(self, dst: ::core::ptr::NonNull<$outer $(< $($($generics_apply)*),* >)* >, layout: <$inner as $crate::VarLen>::Layout) {
-                self.0.initialize(dst.cast::<$inner>(), layout);
+                <InnerInit as $crate::Initializer<$inner>>::initialize(self.0, dst.cast::<$inner>(), layout);
             }
         }
 
@@ -308,7 +308,7 @@ macro_rules! impl_initializer_as_newtype {
                 // Safety:
                 // * validity of dst is ensured by caller
                 // * layout matches what we called layout on above, on `self.0`
-                self.0.initialize(dst, layout);
+                $crate::Initializer::<$t>::initialize(self.0, dst, layout);
             }
         }
     }
-- 
2.43.0


From 77d26c7bd1252d619c12aef7c8d53db6c8e372e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:59 +0000
Subject: [PATCH 20/22] fix: client code cannot implement Unpin for
 variable-length types

---
 varlen/src/macro_support.rs | 12 ++++++++++++
 varlen/src/newtype.rs       |  6 ++++++
 varlen_macro/src/lib.rs     |  9 +++++++++
 3 files changed, 27 insertions(+)

diff --git a/varlen/src/macro_support.rs b/varlen/src/macro_support.rs
index ab7cafa..4d35153 100644
--- a/varlen/src/macro_support.rs
+++ b/varlen/src/macro_support.rs
@@ -176,6 +176,18 @@ pub const fn array_max(arr: &[usize]) -> usize {
     r
 }
 
+/// Is `Unpin` if and only if `T` is.
+///
+/// The lifetime makes `AutoUnpin<'a, T>: Unpin` a bound that may be written for a `T` that
+/// doesn't fulfill it. The macros use that bound to spell out the `Unpin` implementation which
+/// the compiler derives anyway, so that client code can't add one: moving an object by way of
+/// `Pin::get_mut()` would separate its header from its tail.
+#[allow(dead_code)]
+pub struct AutoUnpin<'a, T: ?Sized>(
+    core::marker::PhantomData<&'a ()>,
+    core::marker::PhantomData<T>,
+);
+
 #[track_caller]
 pub fn invalid_drop_call() -> ! {
     panic!("Called drop on a VarLen type; should have used vdrop instead")
diff --git a/varlen/src/newtype.rs b/varlen/src/newtype.rs
index 33c29f4..9b41e2d 100644
--- a/varlen/src/newtype.rs
+++ b/varlen/src/newtype.rs
@@ -188,6 +188,12 @@ macro_rules! define_varlen_newtype {
         $(#[$initattrs])*
         $initvis struct $init < InnerInit >($initfieldvis InnerInit);
 
+        // Takes the place of an implementation by hand, which would be unsound.
+        impl<'__varlen $($(, $($generic_params)*)*)*> ::core::marker::Unpin for $outer $(< $($($generics_apply)*),* >)*
+        where
+            $crate::macro_support::AutoUnpin<'__varlen, $inner>: ::core::marker::Unpin
+        {}
+
         unsafe impl $(< $($($generic_params)*),* >)* $crate::VarLen for $outer $(< $($($generics_apply)*),* >)* {
             type Layout = <$inner as $crate::VarLen>::Layout;
             #[inline(always)]
diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index d2af7b2..b95f5b9 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -288,6 +288,12 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
         )
     };
 
+    let mut unpin_generics = d.generics.clone();
+    unpin_generics.make_where_clause().predicates.push(parse_quote!(
+        ::varlen::macro_support::AutoUnpin<'__varlen, (#(#all_decl_ty,)*)>: ::core::marker::Unpin
+    ));
+    let unpin_where = &unpin_generics.where_clause;
+
     Ok(quote! {
         #tyvis mod #mod_name {
             use super::*;
@@ -378,6 +384,9 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
             }
         }
 
+        // Takes the place of an implementation by hand, which would be unsound.
+        impl<'__varlen #(, #generics_impl)*> ::core::marker::Unpin for #tyname<#(#generics_apply),*> #unpin_where {}
+
         unsafe impl<#(#generics_impl),*> ::varlen::VarLen for #tyname<#(#generics_apply),*> #generics_where {
             type Layout = #mod_name::VarLenLayout<#(#layout_generics_apply),*>;
 
-- 
2.43.0


From b8a197825f7f30dee43b7996647e98108df644a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:59 +0000
Subject: [PATCH 21/22] fix: initializer type parameters do not hide names the
 definition uses

---
 varlen_macro/src/lib.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index b95f5b9..4915d8d 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -262,7 +262,8 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
                 needs_vdrop: all_needs_vdrop,
                 init_ty_refs,
             },
-    } = parse_fields(fields, &mod_name, &len_fn_args)?;
+        ..
+    } = parse_fields(fields, &d.generics, &mod_name, &len_fn_args)?;
 
     let (generics_structdef, generics_impl, generics_apply, generics_where) 
         = parse_generics(&d.generics);
@@ -616,13 +617,15 @@ fn mk_layout_ident(ident: &Ident) -> Ident {
     format_ident!("__varlen_layout_{}", ident)
 }
 
-/// Name of the type parameter for the initializer of a field. Differs from the names in `used`.
-fn mk_init_ident(ident: &Ident, used: &[Ident]) -> Ident {
+/// Name of the type parameter for the initializer of a field. Differs from the names in `used`,
+/// and is added to them.
+fn mk_init_ident(ident: &Ident, used: &mut HashSet<Ident>) -> Ident {
     let mut init_ident =
         format_ident!("Init{}", ident.unraw().to_string().to_case(Case::UpperCamel));
     while used.contains(&init_ident) {
         init_ident = format_ident!("{}X", init_ident);
     }
+    used.insert(init_ident.clone());
     init_ident
 }
 
@@ -945,6 +948,8 @@ struct FieldGroups {
     len_exprs: LengthExprs,
     varlen_fields: FieldMarkers,
     all_fields: AllFields,
+    /// Names which the type parameters of `Init` must not have.
+    init_idents_used: HashSet<Ident>,
 }
 
 impl FieldGroups {
@@ -954,6 +959,7 @@ impl FieldGroups {
             len_exprs: LengthExprs::new(),
             varlen_fields: FieldMarkers::new(),
             all_fields: AllFields::new(),
+            init_idents_used: HashSet::new(),
         }
     }
 
@@ -1033,7 +1039,7 @@ impl FieldGroups {
         let meta = OneMeta::parse(&f)?;
         let ident = f.ident.unwrap();
         let layout_ident = mk_layout_ident(&ident);
-        let init_ident = mk_init_ident(&ident, &self.varlen_fields.init_ty_params);
+        let init_ident = mk_init_ident(&ident, &mut self.init_idents_used);
         let span = f.ty.span();
         let ty = f.ty;
 
@@ -1098,7 +1104,7 @@ impl FieldGroups {
         let meta = OneMeta::parse(&f)?;
         let ident = f.ident.unwrap();
         let len_ident = format_ident!("__varlen_len_{}", &ident);
-        let init_ident = mk_init_ident(&ident, &self.varlen_fields.init_ty_params);
+        let init_ident = mk_init_ident(&ident, &mut self.init_idents_used);
         let span = f.ty.span();
         let ty = f.ty;
 
@@ -1188,12 +1194,22 @@ enum FieldType {
     VarlenArray,
 }
 
-fn parse_fields(fields: Punctuated<Field, Comma>, mod_name: &Ident, len_fn_args: &TokenStream) -> Result<FieldGroups, Error> {
+fn parse_fields(fields: Punctuated<Field, Comma>, generics: &Generics, mod_name: &Ident, len_fn_args: &TokenStream) -> Result<FieldGroups, Error> {
     let varlen_attr: Attribute = parse_quote! { #[varlen] };
     let varlen_array_attr: Attribute = parse_quote! { #[varlen_array] };
     let layout_attr: Attribute = parse_quote! { #[controls_layout] };
 
     let mut field_groups = FieldGroups::new();
+    // What the type parameters of `Init` must not hide: the struct's own parameters, and what
+    // their bounds and the types of the fields refer to.
+    let mut used = GenericRefs::new();
+    let where_clause = &generics.where_clause;
+    used.add_tokens(quote!( #generics #where_clause ));
+    for f in &fields {
+        let ty = &f.ty;
+        used.add_tokens(quote!( #ty ));
+    }
+    field_groups.init_idents_used = used.idents;
 
     for mut f in fields {
         let mut field_type = FieldType::Normal;
-- 
2.43.0


From c2b81a5443fe6db4217f4bb0d9fe9d93ec44cd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:59 +0000
Subject: [PATCH 22/22] fix: generated code calls Pin's methods by path

---
 varlen/src/newtype.rs   | 2 +-
 varlen_macro/src/lib.rs | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/varlen/src/newtype.rs b/varlen/src/newtype.rs
index 9b41e2d..6350128 100644
--- a/varlen/src/newtype.rs
+++ b/varlen/src/newtype.rs
@@ -209,7 +209,7 @@ macro_rules! define_varlen_newtype {
                 if !<Self as $crate::VarLen>::NEEDS_VDROP {
                     return;
                 }
-                <$inner as $crate::VarLen>::vdrop(self.map_unchecked_mut(|outer| &mut outer.0), layout);
+                <$inner as $crate::VarLen>::vdrop(::core::pin::Pin::map_unchecked_mut(self, |outer| &mut outer.0), layout);
             }
         }
 
diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index 4915d8d..e216419 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -427,7 +427,7 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
                 false;
 
             unsafe fn vdrop(self: ::core::pin::Pin<&mut Self>, layout: #mod_name::VarLenLayout<#(#layout_generics_apply),*>) {
-                let p_typed = self.get_unchecked_mut() as *mut Self;
+                let p_typed = ::core::pin::Pin::get_unchecked_mut(self) as *mut Self;
                 let p = p_typed as *mut u8;
                 #(
                     #all_drop_field
@@ -474,9 +474,9 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
         impl<#(#generics_impl),*> #tyname<#(#generics_apply),*> #generics_where {
             /// Mutable access to all fields simultaneously, except the header.
             #tyvis fn muts(mut self: ::core::pin::Pin<&mut Self>) -> #mod_name::Muts<'_  #(, #generics_apply)*> {
-                let layout = ::varlen::VarLen::calculate_layout(self.as_ref().get_ref());
+                let layout = ::varlen::VarLen::calculate_layout(&*self);
                 unsafe {
-                    let mut_ref = self.get_unchecked_mut();
+                    let mut_ref = ::core::pin::Pin::get_unchecked_mut(self);
                     let mut_ptr = mut_ref as *mut _;
                     #mod_name::Muts {
                         #(
@@ -519,7 +519,7 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
                         )
                     )*;
                 if valid {
-                    let self_mut = unsafe { self.get_unchecked_mut() };
+                    let self_mut = unsafe { ::core::pin::Pin::get_unchecked_mut(self) };
                     // Replace all fields before dropping any of the old values, because a
                     // panicking destructor must not leave only some of them replaced.
                     #[allow(unused_mut)]
-- 
2.43.0

