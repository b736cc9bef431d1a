From 48817a4985f32d66afd5c212afdf2d0f40f2d78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:27 +0000
Subject: [PATCH 01/12] fix: keep position aligned when pushing empty slices

push_empty / push_empty_slice called set_pos() with a position which is not
necessarily a multiple of VALUE_ALIGNMENT, contrary to set_pos()'s contract.
AlignedVec::set_pos panics on that in builds with debug assertions.
---
 ser_raw/src/storage/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ser_raw/src/storage/mod.rs b/ser_raw/src/storage/mod.rs
index 07e9383..108a644 100644
--- a/ser_raw/src/storage/mod.rs
+++ b/ser_raw/src/storage/mod.rs
@@ -356,9 +356,14 @@ pub trait Storage: Sized {
 		let size = mem::size_of::<T>() * len;
 		self.reserve(size);
 		let pos = self.pos();
-		unsafe { self.set_pos(self.pos() + size) };
 
-		self.align_after::<T>();
+		// Advance past the slice, and align position ready for next push, in one go.
+		// `set_pos()` requires a position which is a multiple of `VALUE_ALIGNMENT`.
+		// Rounding up can't exceed capacity as capacity is a multiple of
+		// `MAX_VALUE_ALIGNMENT`, and `VALUE_ALIGNMENT <= MAX_VALUE_ALIGNMENT`.
+		let new_pos = align_up_to(pos + size, Self::VALUE_ALIGNMENT);
+		unsafe { self.set_pos(new_pos) };
+
 		pos
 	}
 
-- 
2.43.0


From cccbb67e27aeeec3fb7bf44ba841220eb6dfc6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 02/12] fix: align dangling pointer of unallocated storage

---
 ser_raw/src/storage/aligned_vec.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ser_raw/src/storage/aligned_vec.rs b/ser_raw/src/storage/aligned_vec.rs
index b670ed2..d3a6de3 100644
--- a/ser_raw/src/storage/aligned_vec.rs
+++ b/ser_raw/src/storage/aligned_vec.rs
@@ -104,7 +104,7 @@ impl<
 		let _ = Self::ASSERT_ALIGNMENTS_VALID;
 
 		Self {
-			ptr: NonNull::dangling(),
+			ptr: Self::dangling(),
 			capacity: 0,
 			pos: 0,
 		}
@@ -243,7 +243,7 @@ impl<
 			self.ptr = unsafe {
 				if new_cap == 0 {
 					self.dealloc();
-					NonNull::dangling()
+					Self::dangling()
 				} else {
 					self.realloc(new_cap)
 				}
@@ -305,6 +305,16 @@ impl<
 		self.capacity = new_cap;
 	}
 
+	/// Get dangling pointer which is aligned to `STORAGE_ALIGNMENT`.
+	///
+	/// Zero-sized values can be read from a storage which hasn't allocated,
+	/// so pointer must be aligned for any value storage can hold.
+	#[inline]
+	fn dangling() -> NonNull<u8> {
+		// `STORAGE_ALIGNMENT` cannot be 0 - `ASSERT_ALIGNMENTS_VALID` checks it's a power of 2
+		unsafe { NonNull::new_unchecked(STORAGE_ALIGNMENT as *mut u8) }
+	}
+
 	/// Allocate backing memory.
 	///
 	/// # Safety
-- 
2.43.0


From 2808d375d1348330fc763b03fef149fcd1812aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 03/12] fix: panic if size of empty slice overflows

---
 ser_raw/src/storage/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ser_raw/src/storage/mod.rs b/ser_raw/src/storage/mod.rs
index 108a644..b2998e5 100644
--- a/ser_raw/src/storage/mod.rs
+++ b/ser_raw/src/storage/mod.rs
@@ -353,7 +353,10 @@ pub trait Storage: Sized {
 	fn push_empty_slice<T>(&mut self, len: usize) -> usize {
 		self.align_for::<T>();
 
-		let size = mem::size_of::<T>() * len;
+		// `len` is not the length of an actual slice, so calculating `size` could overflow
+		let size = mem::size_of::<T>()
+			.checked_mul(len)
+			.expect("Cannot grow storage further");
 		self.reserve(size);
 		let pos = self.pos();
 
-- 
2.43.0


From 1f4ba16d2f799e75e93a65eacf7a77f460546ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 04/12] fix: derive Serializer on types of any name and with
 any generics

---
 ser_raw_derive_serializer/src/lib.rs          |  5 +--
 .../src/ser_types/complete.rs                 | 41 +++++++++----------
 .../src/ser_types/pos_tracking.rs             | 25 +++++------
 .../src/ser_types/ptr_offset.rs               | 24 +++++------
 4 files changed, 42 insertions(+), 53 deletions(-)

diff --git a/ser_raw_derive_serializer/src/lib.rs b/ser_raw_derive_serializer/src/lib.rs
index a4d0751..e5dc598 100644
--- a/ser_raw_derive_serializer/src/lib.rs
+++ b/ser_raw_derive_serializer/src/lib.rs
@@ -52,12 +52,9 @@ fn serializer_impl(input: DeriveInput) -> TokenStream {
 			// `ser_raw` can be accessed hygenically as `_ser_raw`,
 			// when macro used within `ser_raw`'s own codebase, or externally
 			use #ns as _ser_raw;
-			// Expose `ser_traits` for use within `methods_and_types` and `impls`,
-			// as it's commonly used
-			use _ser_raw::{Serializer, ser_traits};
 
 			#[automatically_derived]
-			impl #impl_generics Serializer for #ser #type_generics #where_clause {
+			impl #impl_generics _ser_raw::Serializer for #ser #type_generics #where_clause {
 				type Storage = #storage_type;
 				type BorrowedStorage = #borrowed_storage_type;
 
diff --git a/ser_raw_derive_serializer/src/ser_types/complete.rs b/ser_raw_derive_serializer/src/ser_types/complete.rs
index 7c930b5..e363eaa 100644
--- a/ser_raw_derive_serializer/src/ser_types/complete.rs
+++ b/ser_raw_derive_serializer/src/ser_types/complete.rs
@@ -17,44 +17,44 @@ fn get_methods() -> TokenStream {
 		// Pointer-writing serializers need a functional `Addr`
 		type Addr = _ser_raw::pos::TrackingAddr;
 
-		fn serialize_value<T: _ser_raw::Serialize<Self>>(&mut self, value: &T) -> usize {
+		fn serialize_value<__T: _ser_raw::Serialize<Self>>(&mut self, value: &__T) -> usize {
 			// Delegate to `PosTracking` trait's implementation
-			ser_traits::PosTracking::do_serialize_value(self, value)
+			_ser_raw::ser_traits::PosTracking::do_serialize_value(self, value)
 		}
 
 		#[inline]
-		fn push_slice<T>(&mut self, slice: &[T], ptr_addr: Self::Addr) -> usize {
+		fn push_slice<__T>(&mut self, slice: &[__T], ptr_addr: Self::Addr) -> usize {
 			// Delegate to `PtrWriting` trait's implementation
-			ser_traits::PtrWriting::do_push_slice(self, slice, ptr_addr)
+			_ser_raw::ser_traits::PtrWriting::do_push_slice(self, slice, ptr_addr)
 		}
 
 		#[inline]
-		fn push_and_process_slice<T, P: FnOnce(&mut Self)>(
+		fn push_and_process_slice<__T, __P: FnOnce(&mut Self)>(
 			&mut self,
-			slice: &[T],
+			slice: &[__T],
 			ptr_addr: Self::Addr,
-			process: P,
+			process: __P,
 		) -> usize {
 			// Delegate to `PtrWriting` trait's implementation
-			ser_traits::PtrWriting::do_push_and_process_slice(self, slice, ptr_addr, process)
+			_ser_raw::ser_traits::PtrWriting::do_push_and_process_slice(self, slice, ptr_addr, process)
 		}
 
 		#[inline]
-		unsafe fn overwrite<T>(&mut self, addr: Self::Addr, value: &T) {
+		unsafe fn overwrite<__T>(&mut self, addr: Self::Addr, value: &__T) {
 			// Delegate to `Writable` trait's implementation
-			ser_traits::Writable::do_overwrite(self, addr, value);
+			_ser_raw::ser_traits::Writable::do_overwrite(self, addr, value);
 		}
 
 		#[inline]
-		fn overwrite_with<W: FnOnce(&mut Self)>(&mut self, write: W) {
+		fn overwrite_with<__W: FnOnce(&mut Self)>(&mut self, write: __W) {
 			// Delegate to `Complete` trait's implementation
-			ser_traits::Complete::do_overwrite_with(self, write);
+			_ser_raw::ser_traits::Complete::do_overwrite_with(self, write);
 		}
 
 		#[inline]
 		fn finalize(self) -> Self::BorrowedStorage {
 			// Delegate to `Complete` trait's implementation
-			ser_traits::Complete::do_finalize(self)
+			_ser_raw::ser_traits::Complete::do_finalize(self)
 		}
 	}
 }
@@ -71,30 +71,27 @@ fn get_impls(input: &DeriveInput, fields: &Vec<Field>) -> TokenStream {
 		#pos_tracking_impl
 
 		const _: () = {
-			use _ser_raw::pos::Ptrs;
-			use ser_traits::{Complete, PtrWriting, Writable};
-
 			#[automatically_derived]
-			impl #impl_generics PtrWriting for #ser #type_generics #where_clause {
+			impl #impl_generics _ser_raw::ser_traits::PtrWriting for #ser #type_generics #where_clause {
 				#[inline]
 				unsafe fn overwrite_ptr(&mut self, ptr_pos: usize, target_pos: usize) {
 					// Delegate to `Complete` trait's implementation
-					Complete::do_overwrite_ptr(self, ptr_pos, target_pos);
+					_ser_raw::ser_traits::Complete::do_overwrite_ptr(self, ptr_pos, target_pos);
 				}
 			}
 
 			#[automatically_derived]
-			impl #impl_generics Writable for #ser #type_generics #where_clause {}
+			impl #impl_generics _ser_raw::ser_traits::Writable for #ser #type_generics #where_clause {}
 
 			#[automatically_derived]
-			impl #impl_generics Complete for #ser #type_generics #where_clause {
+			impl #impl_generics _ser_raw::ser_traits::Complete for #ser #type_generics #where_clause {
 				#[inline]
-				fn ptrs(&self) -> &Ptrs {
+				fn ptrs(&self) -> &_ser_raw::pos::Ptrs {
 					&self.#ptrs
 				}
 
 				#[inline]
-				fn ptrs_mut(&mut self) -> &mut Ptrs {
+				fn ptrs_mut(&mut self) -> &mut _ser_raw::pos::Ptrs {
 					&mut self.#ptrs
 				}
 			}
diff --git a/ser_raw_derive_serializer/src/ser_types/pos_tracking.rs b/ser_raw_derive_serializer/src/ser_types/pos_tracking.rs
index 920e39d..dfc93fe 100644
--- a/ser_raw_derive_serializer/src/ser_types/pos_tracking.rs
+++ b/ser_raw_derive_serializer/src/ser_types/pos_tracking.rs
@@ -19,23 +19,23 @@ fn get_methods() -> TokenStream {
 		// Delegate all methods to `PosTracking` trait's implementation
 
 		#[inline]
-		fn serialize_value<T: _ser_raw::Serialize<Self>>(&mut self, value: &T) -> usize {
-			ser_traits::PosTracking::do_serialize_value(self, value)
+		fn serialize_value<__T: _ser_raw::Serialize<Self>>(&mut self, value: &__T) -> usize {
+			_ser_raw::ser_traits::PosTracking::do_serialize_value(self, value)
 		}
 
 		#[inline]
-		fn push_slice<T>(&mut self, slice: &[T], ptr_addr: Self::Addr) -> usize {
-			ser_traits::PosTracking::do_push_slice(self, slice, ptr_addr)
+		fn push_slice<__T>(&mut self, slice: &[__T], ptr_addr: Self::Addr) -> usize {
+			_ser_raw::ser_traits::PosTracking::do_push_slice(self, slice, ptr_addr)
 		}
 
 		#[inline]
-		fn push_and_process_slice<T, P: FnOnce(&mut Self)>(
+		fn push_and_process_slice<__T, __P: FnOnce(&mut Self)>(
 			&mut self,
-			slice: &[T],
+			slice: &[__T],
 			ptr_addr: Self::Addr,
-			process: P,
+			process: __P,
 		) -> usize {
-			ser_traits::PosTracking::do_push_and_process_slice(self, slice, ptr_addr, process)
+			_ser_raw::ser_traits::PosTracking::do_push_and_process_slice(self, slice, ptr_addr, process)
 		}
 	}
 }
@@ -49,20 +49,17 @@ pub fn impl_pos_tracking(input: &DeriveInput, fields: &Vec<Field>) -> TokenStrea
 
 	quote! {
 		const _: () = {
-			use ser_traits::PosTracking;
-			use _ser_raw::pos::PosMapping;
-
 			#[automatically_derived]
-			impl #impl_generics PosTracking for #ser #type_generics #where_clause {
+			impl #impl_generics _ser_raw::ser_traits::PosTracking for #ser #type_generics #where_clause {
 				/// Get current position mapping
 				#[inline]
-				fn pos_mapping(&self) -> &PosMapping {
+				fn pos_mapping(&self) -> &_ser_raw::pos::PosMapping {
 					&self.#pos_mapping
 				}
 
 				/// Set current position mapping
 				#[inline]
-				fn set_pos_mapping(&mut self, pos_mapping: PosMapping) {
+				fn set_pos_mapping(&mut self, pos_mapping: _ser_raw::pos::PosMapping) {
 					self.#pos_mapping = pos_mapping;
 				}
 			}
diff --git a/ser_raw_derive_serializer/src/ser_types/ptr_offset.rs b/ser_raw_derive_serializer/src/ser_types/ptr_offset.rs
index 9847dca..53eeb0d 100644
--- a/ser_raw_derive_serializer/src/ser_types/ptr_offset.rs
+++ b/ser_raw_derive_serializer/src/ser_types/ptr_offset.rs
@@ -16,26 +16,26 @@ fn get_methods() -> TokenStream {
 		// Pointer-writing serializers need a functional `Addr`
 		type Addr = _ser_raw::pos::TrackingAddr;
 
-		fn serialize_value<T: _ser_raw::Serialize<Self>>(&mut self, value: &T) -> usize {
+		fn serialize_value<__T: _ser_raw::Serialize<Self>>(&mut self, value: &__T) -> usize {
 			// Delegate to `PosTracking` trait's implementation
-			ser_traits::PosTracking::do_serialize_value(self, value)
+			_ser_raw::ser_traits::PosTracking::do_serialize_value(self, value)
 		}
 
 		#[inline]
-		fn push_slice<T>(&mut self, slice: &[T], ptr_addr: Self::Addr) -> usize {
+		fn push_slice<__T>(&mut self, slice: &[__T], ptr_addr: Self::Addr) -> usize {
 			// Delegate to `PtrWriting` trait's implementation
-			ser_traits::PtrWriting::do_push_slice(self, slice, ptr_addr)
+			_ser_raw::ser_traits::PtrWriting::do_push_slice(self, slice, ptr_addr)
 		}
 
 		#[inline]
-		fn push_and_process_slice<T, P: FnOnce(&mut Self)>(
+		fn push_and_process_slice<__T, __P: FnOnce(&mut Self)>(
 			&mut self,
-			slice: &[T],
+			slice: &[__T],
 			ptr_addr: Self::Addr,
-			process: P,
+			process: __P,
 		) -> usize {
 			// Delegate to `PtrWriting` trait's implementation
-			ser_traits::PtrWriting::do_push_and_process_slice(self, slice, ptr_addr, process)
+			_ser_raw::ser_traits::PtrWriting::do_push_and_process_slice(self, slice, ptr_addr, process)
 		}
 	}
 }
@@ -50,10 +50,8 @@ fn get_impls(input: &DeriveInput, fields: &Vec<Field>) -> TokenStream {
 		#pos_tracking_impl
 
 		const _: () = {
-			use ser_traits::{PtrOffset, PtrWriting};
-
 			#[automatically_derived]
-			impl #impl_generics PtrWriting for #ser #type_generics #where_clause {
+			impl #impl_generics _ser_raw::ser_traits::PtrWriting for #ser #type_generics #where_clause {
 				/// Overwrite pointer.
 				///
 				/// # Safety
@@ -65,12 +63,12 @@ fn get_impls(input: &DeriveInput, fields: &Vec<Field>) -> TokenStream {
 				#[inline]
 				unsafe fn overwrite_ptr(&mut self, ptr_pos: usize, target_pos: usize) {
 					// Delegate to `PtrOffset` trait's implementation
-					PtrOffset::do_overwrite_ptr(self, ptr_pos, target_pos);
+					_ser_raw::ser_traits::PtrOffset::do_overwrite_ptr(self, ptr_pos, target_pos);
 				}
 			}
 
 			#[automatically_derived]
-			impl #impl_generics PtrOffset for #ser #type_generics #where_clause {}
+			impl #impl_generics _ser_raw::ser_traits::PtrOffset for #ser #type_generics #where_clause {}
 		};
 	}
 }
-- 
2.43.0


From 26335b67d894961aae26a057d1f6c268ada312d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 05/12] fix: derive Serialize on enum variants with raw
 identifier fields

---
 ser_raw_derive/src/enums.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ser_raw_derive/src/enums.rs b/ser_raw_derive/src/enums.rs
index b0b6930..76e981d 100644
--- a/ser_raw_derive/src/enums.rs
+++ b/ser_raw_derive/src/enums.rs
@@ -1,5 +1,5 @@
 use proc_macro2::TokenStream;
-use quote::{quote, quote_spanned};
+use quote::{format_ident, quote, quote_spanned};
 use syn::{DataEnum, Fields, FieldsNamed, FieldsUnnamed, Generics, Ident};
 
 // TODO: Handle `ser_with` attribute
@@ -87,7 +87,7 @@ fn get_match_for_named_fields(ident: Ident, fields: FieldsNamed) -> Option<Token
 	// `Self::Foo {x: val_x} =>` instead of just `Self::Foo {x} =>`.
 	let field_aliases = field_idents
 		.iter()
-		.map(|ident| Ident::new(&("val_".to_string() + &ident.to_string()), ident.span()))
+		.map(|ident| format_ident!("val_{}", ident))
 		.collect::<Vec<_>>();
 
 	let var_mappings = std::iter::zip(&field_idents, &field_aliases)
-- 
2.43.0


From 1b14d98ef66beb206215ec0e6c374d38678d5ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 06/12] fix: use proxies in #[ser_with] named by any path

---
 ser_raw_derive/src/structs.rs | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/ser_raw_derive/src/structs.rs b/ser_raw_derive/src/structs.rs
index b13b276..42e8baa 100644
--- a/ser_raw_derive/src/structs.rs
+++ b/ser_raw_derive/src/structs.rs
@@ -2,7 +2,7 @@ use proc_macro2::TokenStream;
 use quote::{quote, quote_spanned};
 use syn::{
 	spanned::Spanned, DataStruct, Field, Fields, FieldsNamed, FieldsUnnamed, Generics, Ident, Index,
-	Meta, MetaList, NestedMeta, Path,
+	TypePath,
 };
 
 pub fn derive_struct(
@@ -72,13 +72,11 @@ fn get_field_stmt(field_name: TokenStream, field: &Field) -> TokenStream {
 	}
 }
 
-fn get_with(field: &Field) -> Option<Path> {
+fn get_with(field: &Field) -> Option<TypePath> {
 	let attrs = field
 		.attrs
 		.iter()
-		.map(|attr| attr.parse_meta())
-		.filter_map(Result::ok)
-		.filter(|attr| attr.path().is_ident("ser_with"))
+		.filter(|attr| attr.path.is_ident("ser_with"))
 		.collect::<Vec<_>>();
 
 	if attrs.len() == 0 {
@@ -89,15 +87,8 @@ fn get_with(field: &Field) -> Option<Path> {
 		panic!("Cannot have more than 1 `#[ser_with]` attribute on a field");
 	}
 
-	let attr = attrs.into_iter().nth(0).unwrap();
-	if let Meta::List(MetaList { nested, .. }) = attr {
-		let parts: Vec<NestedMeta> = nested.into_iter().collect();
-		if parts.len() == 1 {
-			let first = parts.into_iter().nth(0).unwrap();
-			if let NestedMeta::Meta(Meta::Path(with)) = first {
-				return Some(with);
-			}
-		}
-	}
-	panic!("`#[ser_with]` needs a path e.g. `#[ser_with(ForeignTypeProxy)]`");
+	let with = attrs[0]
+		.parse_args::<TypePath>()
+		.expect("`#[ser_with]` needs a path e.g. `#[ser_with(ForeignTypeProxy)]`");
+	Some(with)
 }
-- 
2.43.0


From 7253d28078889561a03f035944e2df8661e3228e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:50 +0000
Subject: [PATCH 07/12] fix: use proxies in #[ser_with] on fields of enum
 variants

---
 ser_raw_derive/src/enums.rs   | 35 +++++++++++++++++++++++------------
 ser_raw_derive/src/structs.rs |  2 +-
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/ser_raw_derive/src/enums.rs b/ser_raw_derive/src/enums.rs
index 76e981d..704b475 100644
--- a/ser_raw_derive/src/enums.rs
+++ b/ser_raw_derive/src/enums.rs
@@ -1,8 +1,11 @@
 use proc_macro2::TokenStream;
 use quote::{format_ident, quote, quote_spanned};
-use syn::{DataEnum, Fields, FieldsNamed, FieldsUnnamed, Generics, Ident};
+use syn::{
+	punctuated::Punctuated, token::Comma, DataEnum, Field, Fields, FieldsNamed, FieldsUnnamed, Generics,
+	Ident,
+};
 
-// TODO: Handle `ser_with` attribute
+use crate::structs::get_with;
 
 pub fn derive_enum(
 	data: DataEnum,
@@ -63,7 +66,7 @@ fn get_match_for_unnamed_fields(ident: Ident, fields: FieldsUnnamed) -> Option<T
 		.into_iter()
 		.map(|index| Ident::new(&("val_".to_string() + &index.to_string()), ident.span()))
 		.collect::<Vec<_>>();
-	let stmts = get_field_stmts(&field_idents);
+	let stmts = get_field_stmts(&field_idents, &fields);
 
 	Some(quote_spanned! {ident.span()=>
 		Self::#ident(#(#field_idents),*) => {
@@ -79,8 +82,8 @@ fn get_match_for_named_fields(ident: Ident, fields: FieldsNamed) -> Option<Token
 	}
 
 	let field_idents = fields
-		.into_iter()
-		.map(|field| field.ident.unwrap())
+		.iter()
+		.map(|field| field.ident.clone().unwrap())
 		.collect::<Vec<_>>();
 
 	// Aliases are required in case of a field called `serializer`.
@@ -94,7 +97,7 @@ fn get_match_for_named_fields(ident: Ident, fields: FieldsNamed) -> Option<Token
 		.map(|(ident, alias)| quote! { #ident: #alias })
 		.collect::<Vec<_>>();
 
-	let stmts = get_field_stmts(&field_aliases);
+	let stmts = get_field_stmts(&field_aliases, &fields);
 
 	Some(quote_spanned! {ident.span()=>
 		Self::#ident{#(#var_mappings),*} => {
@@ -103,12 +106,20 @@ fn get_match_for_named_fields(ident: Ident, fields: FieldsNamed) -> Option<Token
 	})
 }
 
-fn get_field_stmts(idents: &Vec<Ident>) -> Vec<TokenStream> {
-	idents
-		.iter()
-		.map(|ident| {
-			quote! {
-				::ser_raw::Serialize::<__S>::serialize_data(#ident, serializer);
+fn get_field_stmts(idents: &Vec<Ident>, fields: &Punctuated<Field, Comma>) -> Vec<TokenStream> {
+	std::iter::zip(idents, fields)
+		.map(|(ident, field)| {
+			match get_with(field) {
+				Some(with) => {
+					quote! {
+						<#with as ::ser_raw::SerializeWith::<_, __S>>::serialize_data_with(#ident, serializer);
+					}
+				}
+				None => {
+					quote! {
+						::ser_raw::Serialize::<__S>::serialize_data(#ident, serializer);
+					}
+				}
 			}
 		})
 		.collect::<Vec<_>>()
diff --git a/ser_raw_derive/src/structs.rs b/ser_raw_derive/src/structs.rs
index 42e8baa..715b066 100644
--- a/ser_raw_derive/src/structs.rs
+++ b/ser_raw_derive/src/structs.rs
@@ -72,7 +72,7 @@ fn get_field_stmt(field_name: TokenStream, field: &Field) -> TokenStream {
 	}
 }
 
-fn get_with(field: &Field) -> Option<TypePath> {
+pub fn get_with(field: &Field) -> Option<TypePath> {
 	let attrs = field
 		.attrs
 		.iter()
-- 
2.43.0


From 5dfaf4d274870acca4a07f00772fffbf6b3c8f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:24 +0000
Subject: [PATCH 08/12] fix: keep generic arguments of proxies in #[ser_with]
 as written

---
 ser_raw_derive/src/structs.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ser_raw_derive/src/structs.rs b/ser_raw_derive/src/structs.rs
index 715b066..dbd9109 100644
--- a/ser_raw_derive/src/structs.rs
+++ b/ser_raw_derive/src/structs.rs
@@ -72,7 +72,7 @@ fn get_field_stmt(field_name: TokenStream, field: &Field) -> TokenStream {
 	}
 }
 
-pub fn get_with(field: &Field) -> Option<TypePath> {
+pub fn get_with(field: &Field) -> Option<TokenStream> {
 	let attrs = field
 		.attrs
 		.iter()
@@ -87,8 +87,11 @@ pub fn get_with(field: &Field) -> Option<TypePath> {
 		panic!("Cannot have more than 1 `#[ser_with]` attribute on a field");
 	}
 
-	let with = attrs[0]
+	attrs[0]
 		.parse_args::<TypePath>()
 		.expect("`#[ser_with]` needs a path e.g. `#[ser_with(ForeignTypeProxy)]`");
-	Some(with)
+
+	// Use the tokens as they were written. `TypePath` cannot reproduce a block as a const argument
+	// e.g. `#[ser_with(Proxy<{ N }>)]`.
+	Some(attrs[0].parse_args().unwrap())
 }
-- 
2.43.0


From 9d11388f22539cdafe90f4daea6c95a9d5a0a743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:32 +0000
Subject: [PATCH 09/12] fix: keep braced const generic arguments as written in
 derives

---
 ser_raw_derive/src/lib.rs            | 35 +++++++++++++++++++++++++---
 ser_raw_derive_serializer/src/lib.rs | 33 ++++++++++++++++++++++++--
 2 files changed, 63 insertions(+), 5 deletions(-)

diff --git a/ser_raw_derive/src/lib.rs b/ser_raw_derive/src/lib.rs
index 46be15e..0808bfc 100644
--- a/ser_raw_derive/src/lib.rs
+++ b/ser_raw_derive/src/lib.rs
@@ -1,4 +1,4 @@
-use proc_macro2;
+use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
 use syn::{
 	parse_macro_input, parse_quote, Attribute, Data, DeriveInput, GenericParam, Generics, TraitBound,
 };
@@ -16,10 +16,10 @@ use enums::derive_enum;
 #[proc_macro_derive(Serialize, attributes(ser_with, ser_bound))]
 pub fn serialize(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
 	let input = parse_macro_input!(input as DeriveInput);
-	serialize_impl(input).into()
+	remove_doubled_braces(serialize_impl(input)).into()
 }
 
-fn serialize_impl(input: DeriveInput) -> proc_macro2::TokenStream {
+fn serialize_impl(input: DeriveInput) -> TokenStream {
 	let generics = input.generics;
 	let generics_for_impl = get_generics(input.attrs, &generics);
 
@@ -62,3 +62,32 @@ fn get_ser_bound(attrs: Vec<Attribute>) -> Option<TraitBound> {
 	}
 	ser_bound
 }
+
+/// `syn` without its "full" feature adds braces around generic arguments which
+/// have braces already - `Foo<{ N }>` becomes `Foo<{ { N } }>` - and the compiler
+/// does not accept that where `N` is a generic parameter. Remove doubled braces.
+fn remove_doubled_braces(tokens: TokenStream) -> TokenStream {
+	tokens
+		.into_iter()
+		.map(|token| {
+			let group = match token {
+				TokenTree::Group(group) => group,
+				token => return token,
+			};
+
+			let mut stream = remove_doubled_braces(group.stream());
+			if group.delimiter() == Delimiter::Brace {
+				let mut inner = stream.clone().into_iter();
+				if let (Some(TokenTree::Group(inner)), None) = (inner.next(), inner.next()) {
+					if inner.delimiter() == Delimiter::Brace {
+						stream = inner.stream();
+					}
+				}
+			}
+
+			let mut new_group = Group::new(group.delimiter(), stream);
+			new_group.set_span(group.span());
+			TokenTree::Group(new_group)
+		})
+		.collect()
+}
diff --git a/ser_raw_derive_serializer/src/lib.rs b/ser_raw_derive_serializer/src/lib.rs
index e5dc598..50c9d65 100644
--- a/ser_raw_derive_serializer/src/lib.rs
+++ b/ser_raw_derive_serializer/src/lib.rs
@@ -1,4 +1,4 @@
-use proc_macro2::TokenStream;
+use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
 use quote::quote;
 use syn::{parse2, parse_macro_input, DeriveInput, Field, Ident, Type};
 
@@ -22,7 +22,7 @@ use ser_types::{
 )]
 pub fn serializer(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
 	let input = parse_macro_input!(input as DeriveInput);
-	serializer_impl(input).into()
+	remove_doubled_braces(serializer_impl(input)).into()
 }
 
 fn serializer_impl(input: DeriveInput) -> TokenStream {
@@ -96,3 +96,32 @@ fn get_storage_field(fields: &Vec<Field>) -> (Ident, Type, Type) {
 
 	(field_name, ty, borrowed_ty)
 }
+
+/// `syn` without its "full" feature adds braces around generic arguments which
+/// have braces already - `Foo<{ N }>` becomes `Foo<{ { N } }>` - and the compiler
+/// does not accept that where `N` is a generic parameter. Remove doubled braces.
+fn remove_doubled_braces(tokens: TokenStream) -> TokenStream {
+	tokens
+		.into_iter()
+		.map(|token| {
+			let group = match token {
+				TokenTree::Group(group) => group,
+				token => return token,
+			};
+
+			let mut stream = remove_doubled_braces(group.stream());
+			if group.delimiter() == Delimiter::Brace {
+				let mut inner = stream.clone().into_iter();
+				if let (Some(TokenTree::Group(inner)), None) = (inner.next(), inner.next()) {
+					if inner.delimiter() == Delimiter::Brace {
+						stream = inner.stream();
+					}
+				}
+			}
+
+			let mut new_group = Group::new(group.delimiter(), stream);
+			new_group.set_span(group.span());
+			TokenTree::Group(new_group)
+		})
+		.collect()
+}
-- 
2.43.0


From 8d0e40e115afab708f42a5376063677fcc556a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:49 +0000
Subject: [PATCH 10/12] fix: derive Serializer whatever names and methods are
 in scope

---
 ser_raw_derive_serializer/src/lib.rs                    | 6 ++----
 ser_raw_derive_serializer/src/ser_types/complete.rs     | 4 ++--
 ser_raw_derive_serializer/src/ser_types/pos_tracking.rs | 2 +-
 ser_raw_derive_serializer/src/ser_types/ptr_offset.rs   | 2 +-
 4 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/ser_raw_derive_serializer/src/lib.rs b/ser_raw_derive_serializer/src/lib.rs
index 50c9d65..a8e3eec 100644
--- a/ser_raw_derive_serializer/src/lib.rs
+++ b/ser_raw_derive_serializer/src/lib.rs
@@ -62,14 +62,12 @@ fn serializer_impl(input: DeriveInput) -> TokenStream {
 
 				#[inline]
 				fn storage(&self) -> &#storage_type {
-					use ::std::borrow::Borrow;
-					self.#storage_field_name.borrow()
+					::std::borrow::Borrow::borrow(&self.#storage_field_name)
 				}
 
 				#[inline]
 				fn storage_mut(&mut self) -> &mut #storage_type {
-					use ::std::borrow::BorrowMut;
-					self.#storage_field_name.borrow_mut()
+					::std::borrow::BorrowMut::borrow_mut(&mut self.#storage_field_name)
 				}
 
 				#[inline]
diff --git a/ser_raw_derive_serializer/src/ser_types/complete.rs b/ser_raw_derive_serializer/src/ser_types/complete.rs
index e363eaa..e139bf2 100644
--- a/ser_raw_derive_serializer/src/ser_types/complete.rs
+++ b/ser_raw_derive_serializer/src/ser_types/complete.rs
@@ -29,7 +29,7 @@ fn get_methods() -> TokenStream {
 		}
 
 		#[inline]
-		fn push_and_process_slice<__T, __P: FnOnce(&mut Self)>(
+		fn push_and_process_slice<__T, __P: ::std::ops::FnOnce(&mut Self)>(
 			&mut self,
 			slice: &[__T],
 			ptr_addr: Self::Addr,
@@ -46,7 +46,7 @@ fn get_methods() -> TokenStream {
 		}
 
 		#[inline]
-		fn overwrite_with<__W: FnOnce(&mut Self)>(&mut self, write: __W) {
+		fn overwrite_with<__W: ::std::ops::FnOnce(&mut Self)>(&mut self, write: __W) {
 			// Delegate to `Complete` trait's implementation
 			_ser_raw::ser_traits::Complete::do_overwrite_with(self, write);
 		}
diff --git a/ser_raw_derive_serializer/src/ser_types/pos_tracking.rs b/ser_raw_derive_serializer/src/ser_types/pos_tracking.rs
index dfc93fe..53d5886 100644
--- a/ser_raw_derive_serializer/src/ser_types/pos_tracking.rs
+++ b/ser_raw_derive_serializer/src/ser_types/pos_tracking.rs
@@ -29,7 +29,7 @@ fn get_methods() -> TokenStream {
 		}
 
 		#[inline]
-		fn push_and_process_slice<__T, __P: FnOnce(&mut Self)>(
+		fn push_and_process_slice<__T, __P: ::std::ops::FnOnce(&mut Self)>(
 			&mut self,
 			slice: &[__T],
 			ptr_addr: Self::Addr,
diff --git a/ser_raw_derive_serializer/src/ser_types/ptr_offset.rs b/ser_raw_derive_serializer/src/ser_types/ptr_offset.rs
index 53eeb0d..83fbca8 100644
--- a/ser_raw_derive_serializer/src/ser_types/ptr_offset.rs
+++ b/ser_raw_derive_serializer/src/ser_types/ptr_offset.rs
@@ -28,7 +28,7 @@ fn get_methods() -> TokenStream {
 		}
 
 		#[inline]
-		fn push_and_process_slice<__T, __P: FnOnce(&mut Self)>(
+		fn push_and_process_slice<__T, __P: ::std::ops::FnOnce(&mut Self)>(
 			&mut self,
 			slice: &[__T],
 			ptr_addr: Self::Addr,
-- 
2.43.0


From f40a13a14f93422390049f0601cedeadc0c326c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:08 +0000
Subject: [PATCH 11/12] fix: derive Serialize on structs whose fields are
 passed to a macro

Statements for each field took the hygiene of field's own tokens, so `self`
and `serializer` weren't found if field came from the arguments of a macro
which produced the definition. Enums were not affected.
---
 ser_raw_derive/src/structs.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ser_raw_derive/src/structs.rs b/ser_raw_derive/src/structs.rs
index dbd9109..96fa597 100644
--- a/ser_raw_derive/src/structs.rs
+++ b/ser_raw_derive/src/structs.rs
@@ -1,4 +1,4 @@
-use proc_macro2::TokenStream;
+use proc_macro2::{Span, TokenStream};
 use quote::{quote, quote_spanned};
 use syn::{
 	spanned::Spanned, DataStruct, Field, Fields, FieldsNamed, FieldsUnnamed, Generics, Ident, Index,
@@ -54,16 +54,21 @@ fn get_unnamed_field_stmts(fields: FieldsUnnamed) -> Vec<TokenStream> {
 }
 
 fn get_field_stmt(field_name: TokenStream, field: &Field) -> TokenStream {
+	// Errors are reported at the field, but names resolve as they do in the rest of the impl.
+	// Field's own span may be from elsewhere, if definition is produced by a macro,
+	// and `self` and `serializer` would not be found from there.
+	let span = field.span().resolved_at(Span::call_site());
+
 	match get_with(field) {
 		Some(with) => {
-			quote_spanned! {field.span()=>
+			quote_spanned! {span=>
 				<#with as ::ser_raw::SerializeWith::<_, __S>>::serialize_data_with(
 					&self.#field_name, serializer
 				);
 			}
 		}
 		None => {
-			quote_spanned! {field.span()=>
+			quote_spanned! {span=>
 				::ser_raw::Serialize::<__S>::serialize_data(
 					&self.#field_name, serializer
 				);
-- 
2.43.0


From f49cfbfdabcfa86d4c5e9bbab55b37861abd807d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:56 +0000
Subject: [PATCH 12/12] fix: compile on 32-bit systems

`u32::MAX as usize + 1` overflows there. The branch is never taken, but
the compiler still refuses it (`arithmetic_overflow`).
---
 ser_raw/src/util.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ser_raw/src/util.rs b/ser_raw/src/util.rs
index 3664218..4a97c64 100644
--- a/ser_raw/src/util.rs
+++ b/ser_raw/src/util.rs
@@ -92,10 +92,9 @@ pub const fn aligned_max_u32_capacity(alignment: usize) -> usize {
 	);
 
 	if mem::size_of::<usize>() >= 8 {
-		// This would overflow on a 32-bit system, but check above avoids this path
-		// TODO: This may still fail to compile on 32-bit systems if compiler doesn't
-		// understand this branch cannot be taken. Check this.
-		u32::MAX as usize + 1
+		// Does not wrap, as `usize` is at least 64 bits here. On a 32-bit system, this
+		// branch is never taken, but `+ 1` would still fail to compile.
+		(u32::MAX as usize).wrapping_add(1)
 	} else {
 		isize::MAX as usize - (alignment - 1)
 	}
-- 
2.43.0

