From 5de37002d3231a6e8747352f0f4209044abc47eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 01/41] fix: round stable Result's size up to its alignment

The advertised size was det + max(Ok::Size, Err::Size) without rounding, so
e.g. Result<[u16; 3], NonZeroU32> advertised 6 bytes and got 4 bytes of
storage, and building its Ok variant wrote past the end of the value.
---
 stabby-abi/src/result.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/result.rs b/stabby-abi/src/result.rs
index 94f7f13..a84510a 100644
--- a/stabby-abi/src/result.rs
+++ b/stabby-abi/src/result.rs
@@ -47,8 +47,8 @@ where
     Ok: IDeterminantProvider<Err>,
     Err: IStable,
 {
-    /// The size is the max of the variants' sizes, plus the size of the determinant upgraded to a multiple of the alignment.
-    type Size = tyeval!(<<Determinant<Ok, Err> as IStable>::Size as Unsigned>::NextMultipleOf<Self::Align> + <Ok::Size as Unsigned>::Max<Err::Size>);
+    /// The size is the max of the variants' sizes upgraded to a multiple of the alignment, plus the size of the determinant upgraded to a multiple of the alignment.
+    type Size = tyeval!(<<Determinant<Ok, Err> as IStable>::Size as Unsigned>::NextMultipleOf<Self::Align> + <<Ok::Size as Unsigned>::Max<Err::Size> as Unsigned>::NextMultipleOf<Self::Align>);
     /// The alignment is the max of the variants' alignments.
     type Align = <Ok::Align as Alignment>::Max<Err::Align>;
     // If either variant may contain an indirection, so may their sum-type.
-- 
2.43.0


From 330ae44281ef025a609ee6757cdd96dc29b14a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 02/41] fix: advertise c_void's real size

c_void is a one byte type, but was advertised as zero-sized.
---
 stabby-abi/src/stable_impls/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/stable_impls/mod.rs b/stabby-abi/src/stable_impls/mod.rs
index 54accca..b833e9e 100644
--- a/stabby-abi/src/stable_impls/mod.rs
+++ b/stabby-abi/src/stable_impls/mod.rs
@@ -278,9 +278,9 @@ unsafe impl IStable for core::marker::PhantomPinned {
 }
 // SAFETY: Automatic checks verify this.
 unsafe impl IStable for core::ffi::c_void {
-    same_as!(());
+    same_as!(u8, "core::ffi::c_void");
+    type HasExactlyOneNiche = Saturator;
     type ContainsIndirections = B0;
-    primitive_report!("core::ffi::c_void");
 }
 // SAFETY: Automatic checks verify this.
 unsafe impl IStable for bool {
-- 
2.43.0


From 6d2c216a91eb68cf0b2a826b281291bbd21dee0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 03/41] fix: MaybeUninit<T> has none of T's niches

An uninitialized MaybeUninit<T> may hold any bytes, so neither stabby's sum
types nor Option may pack anything in what would be T's niches.
---
 stabby-abi/src/stable_impls/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/stable_impls/mod.rs b/stabby-abi/src/stable_impls/mod.rs
index b833e9e..36cd4ce 100644
--- a/stabby-abi/src/stable_impls/mod.rs
+++ b/stabby-abi/src/stable_impls/mod.rs
@@ -539,8 +539,15 @@ unsafe impl<T: IStable> IStable for core::mem::ManuallyDrop<T> {
 }
 // SAFETY: Automatic checks verify this.
 unsafe impl<T: IStable> IStable for core::mem::MaybeUninit<T> {
-    same_as!(T, <T as IStable>::REPORT.name.as_str());
-    type HasExactlyOneNiche = T::HasExactlyOneNiche;
+    type Align = T::Align;
+    type Size = T::Size;
+    // Any byte pattern is a valid `MaybeUninit<T>`.
+    type UnusedBits = End;
+    type ForbiddenValues = End;
+    #[cfg(feature = "experimental-ctypes")]
+    type CType = T::CType;
+    primitive_report!(<T as IStable>::REPORT.name.as_str());
+    type HasExactlyOneNiche = B0;
     type ContainsIndirections = T::ContainsIndirections;
 }
 // SAFETY: Automatic checks verify this.
-- 
2.43.0


From 379a971f63d59dcc0111c3a9a6a5a32e515ca5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 04/41] fix: don't export UnsafeCell<T>'s padding and Rust
 niches

A T written through a shared UnsafeCell overwrites T's padding, where a
sum type would have stored its tag; and rustc hides the niches of
UnsafeCell, so Option<UnsafeCell<&T>> is larger than advertised.
---
 stabby-abi/src/stable_impls/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/stable_impls/mod.rs b/stabby-abi/src/stable_impls/mod.rs
index 36cd4ce..1455fa3 100644
--- a/stabby-abi/src/stable_impls/mod.rs
+++ b/stabby-abi/src/stable_impls/mod.rs
@@ -552,8 +552,16 @@ unsafe impl<T: IStable> IStable for core::mem::MaybeUninit<T> {
 }
 // SAFETY: Automatic checks verify this.
 unsafe impl<T: IStable> IStable for core::cell::UnsafeCell<T> {
-    same_as!(T, <T as IStable>::REPORT.name.as_str());
-    type HasExactlyOneNiche = T::HasExactlyOneNiche;
+    type Align = T::Align;
+    type Size = T::Size;
+    // Writing a `T` through a shared reference may overwrite its padding.
+    type UnusedBits = End;
+    type ForbiddenValues = T::ForbiddenValues;
+    #[cfg(feature = "experimental-ctypes")]
+    type CType = T::CType;
+    primitive_report!(<T as IStable>::REPORT.name.as_str());
+    // Rust doesn't look for niches in `UnsafeCell`s.
+    type HasExactlyOneNiche = B0;
     type ContainsIndirections = T::ContainsIndirections;
 }
 
-- 
2.43.0


From 84f5c195f62a1ff3835c6585dfb59b95f5e769ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 05/41] fix: count the Rust niches of Ordering, OwnedFd and
 BorrowedFd

They were advertised as having no niche, so a struct pairing one of them
with a single-niche type was taken for a type with exactly one niche and
Rust's Option of it was declared stable, with a layout rustc doesn't use.
---
 stabby-abi/src/stable_impls/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/stabby-abi/src/stable_impls/mod.rs b/stabby-abi/src/stable_impls/mod.rs
index 1455fa3..9723e66 100644
--- a/stabby-abi/src/stable_impls/mod.rs
+++ b/stabby-abi/src/stable_impls/mod.rs
@@ -930,16 +930,16 @@ mod abi_stable;
 #[cfg(all(feature = "std", target_family = "unix"))]
 // SAFETY: Automatic checks verify this.
 unsafe impl IStable for std::os::fd::OwnedFd {
-    same_as!(core::ffi::c_int);
+    same_as!(core::ffi::c_int, "std::os::fd::OwnedFd");
+    type HasExactlyOneNiche = B1;
     type ContainsIndirections = B1;
-    primitive_report!("std::os::fd::OwnedFd");
 }
 #[cfg(all(feature = "std", target_family = "unix"))]
 // SAFETY: Automatic checks verify this.
 unsafe impl IStable for std::os::fd::BorrowedFd<'_> {
-    same_as!(core::ffi::c_int);
+    same_as!(core::ffi::c_int, "std::os::fd::BorrowedFd");
+    type HasExactlyOneNiche = B1;
     type ContainsIndirections = B1;
-    primitive_report!("std::os::fd::BorrowedFd");
 }
 
 const ARRAY_NAME: [&str; 129] = [
@@ -1002,7 +1002,7 @@ unsafe impl IStable for core::cmp::Ordering {
     type Size = U1;
     type ForbiddenValues = crate::istable::ForbiddenRange<U2, U254, U0>;
     type UnusedBits = End;
-    type HasExactlyOneNiche = B0;
+    type HasExactlyOneNiche = Saturator;
     type ContainsIndirections = B0;
     #[cfg(feature = "experimental-ctypes")]
     type CType = u8;
-- 
2.43.0


From 481d970f6565fd2546fbfc4d7fbcc88202f224dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 06/41] fix: require an alignment of 1 from the zero-sized
 payload of a stable core Result

Rust only guarantees the niche layout when the other variant is a 1-ZST;
Result<NonZeroU8, [u64; 0]> was advertised as one byte big when rustc
makes it 8.
---
 stabby-abi/src/stable_impls/mod.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/stabby-abi/src/stable_impls/mod.rs b/stabby-abi/src/stable_impls/mod.rs
index 9723e66..aed1479 100644
--- a/stabby-abi/src/stable_impls/mod.rs
+++ b/stabby-abi/src/stable_impls/mod.rs
@@ -707,6 +707,9 @@ unsafe impl IStable for f64 {
 }
 
 pub struct HasExactlyOneNiche<A, B>(core::marker::PhantomData<(A, B)>);
+/// `U0` if and only if `T` is a zero-sized type with an alignment of 1: the only payloads whose presence
+/// in the other variant doesn't affect the layout Rust guarantees for `Result`.
+type Not1Zst<T> = <<<T as IStable>::Size as Unsigned>::Add<<T as IStable>::Align> as Unsigned>::AbsSub<U1>;
 // SAFETY: Automatic checks verify this.
 unsafe impl<T: IStable> IStable for core::option::Option<T>
 where
@@ -753,12 +756,12 @@ unsafe impl<T: IStable> IStable for core::result::Result<T, core::convert::Infal
 // SAFETY: Automatic checks verify this.
 unsafe impl<Ok: IStable, Err: IStable> IStable for core::result::Result<Ok, Err>
 where
-    HasExactlyOneNiche<Self, (Ok::HasExactlyOneNiche, Err::Size)>: IStable,
+    HasExactlyOneNiche<Self, (Ok::HasExactlyOneNiche, Not1Zst<Err>)>: IStable,
 {
     type ContainsIndirections = <Ok::ContainsIndirections as Bit>::Or<Err::ContainsIndirections>;
-    same_as!(HasExactlyOneNiche<Self, (Ok::HasExactlyOneNiche, Err::Size)>);
+    same_as!(HasExactlyOneNiche<Self, (Ok::HasExactlyOneNiche, Not1Zst<Err>)>);
     const REPORT: &'static report::TypeReport =
-        <HasExactlyOneNiche<Self, (Ok::HasExactlyOneNiche, Err::Size)> as IStable>::REPORT;
+        <HasExactlyOneNiche<Self, (Ok::HasExactlyOneNiche, Not1Zst<Err>)> as IStable>::REPORT;
     const ID: u64 = crate::report::gen_id(Self::REPORT);
 }
 // SAFETY: Automatic checks verify this.
@@ -790,12 +793,12 @@ unsafe impl<Ok: IStable, Err: IStable> IStable
 unsafe impl<Ok: IStable, Err: IStable, BO, B: Bit, I: Unsigned> IStable
     for HasExactlyOneNiche<core::result::Result<Ok, Err>, (BO, UInt<I, B>)>
 where
-    HasExactlyOneNiche<Self, (Err::HasExactlyOneNiche, Ok::Size)>: IStable,
+    HasExactlyOneNiche<Self, (Err::HasExactlyOneNiche, Not1Zst<Ok>)>: IStable,
 {
-    same_as!(HasExactlyOneNiche<Self, (Err::HasExactlyOneNiche, Ok::Size)>);
+    same_as!(HasExactlyOneNiche<Self, (Err::HasExactlyOneNiche, Not1Zst<Ok>)>);
     type ContainsIndirections = <Ok::ContainsIndirections as Bit>::Or<Err::ContainsIndirections>;
     const REPORT: &'static report::TypeReport =
-        <HasExactlyOneNiche<Self, (Err::HasExactlyOneNiche, Ok::Size)> as IStable>::REPORT;
+        <HasExactlyOneNiche<Self, (Err::HasExactlyOneNiche, Not1Zst<Ok>)> as IStable>::REPORT;
     const ID: u64 = crate::report::gen_id(Self::REPORT);
 }
 // SAFETY: Automatic checks verify this.
-- 
2.43.0


From c7b08091eab3bda0879a84f4b296c4bc9469dfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 07/41] fix: don't claim that repr(u*) enums have no niche

---
 stabby-macros/src/enums.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stabby-macros/src/enums.rs b/stabby-macros/src/enums.rs
index cf2cb1a..65352c0 100644
--- a/stabby-macros/src/enums.rs
+++ b/stabby-macros/src/enums.rs
@@ -311,7 +311,7 @@ pub fn stabby(
             type UnusedBits =<#layout as #st::IStable>::UnusedBits;
             type Size = <#layout as #st::IStable>::Size;
             type Align = <#layout as #st::IStable>::Align;
-            type HasExactlyOneNiche = #st::B0;
+            type HasExactlyOneNiche = #st::istable::Saturator;
             type ContainsIndirections = <#layout as #st::IStable>::ContainsIndirections;
             #ctype
             const REPORT: &'static #st::report::TypeReport = & #report;
-- 
2.43.0


From 0cae30e337cd2763d1fe9768610188c630f08d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:40 +0000
Subject: [PATCH 08/41] fix: lay out repr(u*) enums with fields as the unions
 of structs they are

---
 stabby-macros/src/enums.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/stabby-macros/src/enums.rs b/stabby-macros/src/enums.rs
index 65352c0..d2d01a0 100644
--- a/stabby-macros/src/enums.rs
+++ b/stabby-macros/src/enums.rs
@@ -270,10 +270,27 @@ pub fn stabby(
     } else {
         quote!(#[repr(#reprid)])
     };
-    layout = quote!(#st::Tuple<#reprid, #layout>);
+    let is_union_of_structs = has_non_empty_fields && !repr.is_some_and(|r| r.is_c);
+    layout = if is_union_of_structs {
+        // Without `repr(C)`, Rust lays out such an enum as a union of `repr(C)` structs that each start with the tag.
+        variants.iter().fold(quote!(#reprid), |layout, variant| {
+            match variant.fields.iter().next() {
+                Some(f) => {
+                    let ty = f.ty.unself(&ident);
+                    quote!(#st::Union<#layout, core::mem::ManuallyDrop<#st::Struct<#st::FieldPair<#reprid, #ty>>>>)
+                }
+                None => layout,
+            }
+        })
+    } else {
+        quote!(#st::Tuple<#reprid, #layout>)
+    };
     report.tyty = crate::Tyty::Enum(trepr);
     let report_bounds = report.bounds();
     let ctype = cfg!(feature = "experimental-ctypes").then(|| {
+        if is_union_of_structs {
+            return quote! {type CType = <#layout as #st::IStable>::CType;};
+        }
         let ctype = report.crepr();
         quote! {type CType = #ctype;}
     });
-- 
2.43.0


From 4421ad20b106024f2f6f77fb64455b253343c311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 09/41] fix: honour every repr hint of a stable struct

---
 stabby-macros/src/structs.rs | 115 +++++++++++++++++------------------
 1 file changed, 57 insertions(+), 58 deletions(-)

diff --git a/stabby-macros/src/structs.rs b/stabby-macros/src/structs.rs
index faebcbd..82eb9ed 100644
--- a/stabby-macros/src/structs.rs
+++ b/stabby-macros/src/structs.rs
@@ -55,47 +55,56 @@ impl syn::parse::Parse for Args {
         Ok(this)
     }
 }
-#[derive(Copy, Clone)]
-enum AllowedRepr {
-    C,
-    Transparent,
-    Align(usize),
+#[derive(Copy, Clone, Default)]
+struct AllowedRepr {
+    c: bool,
+    transparent: bool,
+    align: Option<usize>,
 }
 impl syn::parse::Parse for AllowedRepr {
     fn parse(input: syn::parse::ParseStream) -> syn::Result<Self> {
-        let mut content = input.fork();
-        if input.peek(syn::token::Paren) {
-            syn::parenthesized!(content in input);
-        }
-        let ident: Ident = content.parse()?;
-        Ok(match ident.to_string().as_str() {
-            "C" => AllowedRepr::C,
-            "transparent" => AllowedRepr::Transparent,
-            "packed" => return Err(input.error("stabby does not support packed structs, though you may implement IStable manually if you're very comfident")),
-            "align" => {
-                let input = content;
-                syn::parenthesized!(content in input);
-                let lit: syn::LitInt = content.parse()?;
-                AllowedRepr::Align(lit.base10_parse()?)
+        let mut this = Self::default();
+        while !input.is_empty() {
+            let ident: Ident = input.parse()?;
+            match ident.to_string().as_str() {
+                "C" => this.c = true,
+                "transparent" => this.transparent = true,
+                "packed" => return Err(input.error("stabby does not support packed structs, though you may implement IStable manually if you're very comfident")),
+                "align" => {
+                    let content;
+                    syn::parenthesized!(content in input);
+                    let lit: syn::LitInt = content.parse()?;
+                    this.merge_align(lit.base10_parse()?);
+                }
+                _ => {
+                    return Err(input.error(
+                        "Only #[repr(C)], #[repr(transparent)] and #[repr(align(N))] are allowed for stabby structs",
+                    ))
+                }
             }
-            _ => {
-                return Err(input.error(
-                    "Only #[repr(C)] and #[repr(transparent)] are allowed for stabby structs",
-                ))
+            if !input.is_empty() {
+                let _: syn::Token!(,) = input.parse()?;
             }
-        })
+        }
+        Ok(this)
     }
 }
-impl quote::ToTokens for AllowedRepr {
-    fn to_tokens(&self, tokens: &mut proc_macro2::TokenStream) {
-        tokens.extend(match self {
-            AllowedRepr::C => quote!(#[repr(C)]),
-            AllowedRepr::Transparent => quote!(#[repr(transparent)]),
-            AllowedRepr::Align(n) => {
-                let n = syn::LitInt::new(&format!("{n}"), tokens.span());
-                quote!(#[repr(align(#n))])
+impl AllowedRepr {
+    fn merge_align(&mut self, align: usize) {
+        self.align = Some(self.align.map_or(align, |a| a.max(align)));
+    }
+    /// Gathers every representation hint, whichever attribute it comes from.
+    fn from_attrs(attrs: &[Attribute]) -> Self {
+        let mut this = Self::default();
+        for attr in attrs.iter().filter(|attr| attr.path.is_ident("repr")) {
+            let repr: Self = attr.parse_args().unwrap();
+            this.c |= repr.c;
+            this.transparent |= repr.transparent;
+            if let Some(align) = repr.align {
+                this.merge_align(align)
             }
-        })
+        }
+        this
     }
 }
 
@@ -122,15 +131,9 @@ pub fn stabby(
     let clauses = where_clause.as_ref().map(|w| &w.predicates);
     let mut layout = None;
     let mut report = crate::Report::r#struct(ident.to_string(), version, module);
-    let repr = attrs.iter().find_map(|attr| {
-        if attr.path.is_ident("repr") {
-            syn::parse2::<AllowedRepr>(attr.tokens.clone()).ok()
-        } else {
-            None
-        }
-    });
-    let repr_attr = repr.is_none().then(|| quote! {#[repr(C)]});
-    optimize &= !matches!(repr, Some(AllowedRepr::Align(_)));
+    let repr = AllowedRepr::from_attrs(&attrs);
+    let repr_attr = (!repr.c && !repr.transparent).then(|| quote! {#[repr(C)]});
+    optimize &= repr.align.is_none();
     let struct_code = match &fields {
         syn::Fields::Named(fields) => {
             let fields = &fields.named;
@@ -174,21 +177,17 @@ pub fn stabby(
             }
         }
     };
-    let layout = layout.map_or_else(
-        || quote!(()),
-        |layout| {
-            if let Some(AllowedRepr::Align(mut n)) = repr {
-                let mut align = quote!(#st::U1);
-                while n > 1 {
-                    n /= 2;
-                    align = quote!(#st::UInt<#align, #st::B0>);
-                }
-                quote!(#st::AlignedStruct<#layout, #align>)
-            } else {
-                quote!(#st::Struct<#layout>)
-            }
-        },
-    );
+    let layout = if let Some(mut n) = repr.align {
+        let layout = layout.unwrap_or_else(|| quote!(()));
+        let mut align = quote!(#st::U1);
+        while n > 1 {
+            n /= 2;
+            align = quote!(#st::UInt<#align, #st::B0>);
+        }
+        quote!(#st::AlignedStruct<#layout, #align>)
+    } else {
+        layout.map_or_else(|| quote!(()), |layout| quote!(#st::Struct<#layout>))
+    };
     let opt_id = quote::format_ident!("OptimizedLayoutFor{ident}");
     let size_bug = format!(
         "{ident}'s size was mis-evaluated by stabby, this is definitely a bug and may cause UB, please file an issue"
@@ -213,7 +212,7 @@ pub fn stabby(
     });
     let report_bounds = report.bounds();
     let ctype = cfg!(feature = "experimental-ctypes").then(|| {
-        if matches!(repr, Some(AllowedRepr::Align(_))) {
+        if repr.align.is_some() {
             return quote! {type CType = Self;};
         }
         let ctype = report.crepr();
-- 
2.43.0


From 9801dbaac1cde6b1001b226925c3d936f62259ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:40 +0000
Subject: [PATCH 10/41] fix: let a stable Result cross threads only when its
 payloads may

---
 stabby-abi/src/result.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stabby-abi/src/result.rs b/stabby-abi/src/result.rs
index a84510a..3719c1e 100644
--- a/stabby-abi/src/result.rs
+++ b/stabby-abi/src/result.rs
@@ -33,6 +33,8 @@ where
     Err: IStable,
 {
     storage: Storage<<Self as IStable>::Size, <Self as IStable>::Align>,
+    // `storage` is untyped: this is what gives the result its payloads' auto-traits.
+    payloads: core::marker::PhantomData<(Ok, Err)>,
 }
 impl<Ok: Unpin, Err: Unpin> Unpin for Result<Ok, Err>
 where
@@ -245,6 +247,7 @@ where
             Self::det_ptr_mut(storage_ptr).write(Determinant::<Ok, Err>::ok(storage_ptr.cast()));
             Self {
                 storage: storage.assume_init(),
+                payloads: core::marker::PhantomData,
             }
         }
     }
@@ -258,6 +261,7 @@ where
             Self::det_ptr_mut(storage_ptr).write(Determinant::<Ok, Err>::err(storage_ptr.cast()));
             Self {
                 storage: storage.assume_init(),
+                payloads: core::marker::PhantomData,
             }
         }
     }
-- 
2.43.0


From 26b3ff9f504a8345a255ccfbc5c9b5c6253f0f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:44 +0000
Subject: [PATCH 11/41] fix: require a Sync allocator to share boxes between
 threads

---
 stabby-abi/src/alloc/boxed.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/alloc/boxed.rs b/stabby-abi/src/alloc/boxed.rs
index 0369bb1..4db96b5 100644
--- a/stabby-abi/src/alloc/boxed.rs
+++ b/stabby-abi/src/alloc/boxed.rs
@@ -29,11 +29,11 @@ pub struct Box<T, Alloc: IAlloc = super::DefaultAllocator> {
 // SAFETY: Same constraints as `std::boxed::Box`
 unsafe impl<T: Send, Alloc: IAlloc + Send> Send for Box<T, Alloc> {}
 // SAFETY: Same constraints as `std::boxed::Box`
-unsafe impl<T: Sync, Alloc: IAlloc> Sync for Box<T, Alloc> {}
+unsafe impl<T: Sync, Alloc: IAlloc + Sync> Sync for Box<T, Alloc> {}
 // SAFETY: Same constraints as `std::boxed::Box`
 unsafe impl<T: Send, Alloc: IAlloc + Send> Send for BoxedSlice<T, Alloc> {}
 // SAFETY: Same constraints as `std::boxed::Box`
-unsafe impl<T: Sync, Alloc: IAlloc> Sync for BoxedSlice<T, Alloc> {}
+unsafe impl<T: Sync, Alloc: IAlloc + Sync> Sync for BoxedSlice<T, Alloc> {}
 
 #[cfg(not(stabby_default_alloc = "disabled"))]
 impl<T> Box<T> {
-- 
2.43.0


From 7512389a236957120a0cb013dd9dd8ff8c097abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:48 +0000
Subject: [PATCH 12/41] fix: let an AtomicArcBTreeSet cross threads only when
 its entries may be shared

---
 stabby-abi/src/alloc/collections/arc_btree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stabby-abi/src/alloc/collections/arc_btree.rs b/stabby-abi/src/alloc/collections/arc_btree.rs
index d74a0f6..ca89d12 100644
--- a/stabby-abi/src/alloc/collections/arc_btree.rs
+++ b/stabby-abi/src/alloc/collections/arc_btree.rs
@@ -8,6 +8,7 @@ use crate::alloc::{sync::Arc, AllocPtr, DefaultAllocator, IAlloc};
 /// An [`ArcBTreeSet`] that can be atomically modified.
 pub struct AtomicArcBTreeSet<T: Ord, const REPLACE_ON_INSERT: bool, const SPLIT_LIMIT: usize>(
     AtomicPtr<ArcBTreeSetNodeInner<T, DefaultAllocator, REPLACE_ON_INSERT, SPLIT_LIMIT>>,
+    PhantomData<Arc<T, DefaultAllocator>>,
 )
 where
     DefaultAllocator: core::default::Default + IAlloc;
@@ -27,7 +28,7 @@ where
 {
     /// Constructs a new, empty set.
     pub const fn new() -> Self {
-        Self(AtomicPtr::new(core::ptr::null_mut()))
+        Self(AtomicPtr::new(core::ptr::null_mut()), PhantomData)
     }
     /// Applies `f` to the current value, swapping the current value for the one returned by `f`.
     ///
-- 
2.43.0


From 85f604d2ac02f4ad64cf647b1e7245922d77f786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:51 +0000
Subject: [PATCH 13/41] fix: base trait objects' markers on the ones their
 vtable promises

---
 stabby-abi/src/fatptr.rs     | 2 +-
 stabby-abi/src/vtable/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/fatptr.rs b/stabby-abi/src/fatptr.rs
index 69aa144..544c3f4 100644
--- a/stabby-abi/src/fatptr.rs
+++ b/stabby-abi/src/fatptr.rs
@@ -372,7 +372,7 @@ impl<'a, T, Vt: Copy + IConstConstructor<'a, T>> From<&'a T> for DynRef<'a, Vt>
 }
 
 // SAFETY: This is analogous to a reference, and Vt proves the rest
-unsafe impl<Vt: HasSendVt> Send for DynRef<'_, Vt> {}
+unsafe impl<Vt: HasSyncVt> Send for DynRef<'_, Vt> {}
 // SAFETY: This is analogous to a reference, and Vt proves the rest
 unsafe impl<Vt: HasSyncVt> Sync for DynRef<'_, Vt> {}
 
diff --git a/stabby-abi/src/vtable/mod.rs b/stabby-abi/src/vtable/mod.rs
index 21dcc60..e9bbb91 100644
--- a/stabby-abi/src/vtable/mod.rs
+++ b/stabby-abi/src/vtable/mod.rs
@@ -336,7 +336,7 @@ impl<T: HasDropVt> HasDropVt for VtSync<T> {
 pub trait HasSendVt {}
 impl<T> HasSendVt for VtSend<T> {}
 impl<T: HasSendVt> HasSendVt for VtSync<T> {}
-impl<Head, Tail: HasSyncVt> HasSendVt for VTable<Head, Tail> {}
+impl<Head, Tail: HasSendVt> HasSendVt for VTable<Head, Tail> {}
 /// Whether or not a vtable includes [`VtSync`]
 pub trait HasSyncVt {}
 impl<T> HasSyncVt for VtSync<T> {}
-- 
2.43.0


From efab8ab2091a3574b1ea23e9c00db76488116153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:55 +0000
Subject: [PATCH 14/41] fix: don't make imports of any type shareable between
 threads

---
 stabby-abi/src/checked_import.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stabby-abi/src/checked_import.rs b/stabby-abi/src/checked_import.rs
index 1e1c678..4bb1e1f 100644
--- a/stabby-abi/src/checked_import.rs
+++ b/stabby-abi/src/checked_import.rs
@@ -24,9 +24,9 @@ pub struct CanariedImport<F> {
     canary: extern "C" fn(),
 }
 // SAFETY: `CanariedImport`s always refer to `Send + Sync` things.
-unsafe impl<F> Send for CanariedImport<F> {}
+unsafe impl<F: Send> Send for CanariedImport<F> {}
 // SAFETY: `CanariedImport`s always refer to `Send + Sync` things.
-unsafe impl<F> Sync for CanariedImport<F> {}
+unsafe impl<F: Sync> Sync for CanariedImport<F> {}
 impl<F> CanariedImport<F> {
     /// Used in `#[stabby::import(canaries)]`
     pub const fn new(source: F, canary_caller: extern "C" fn()) -> Self {
@@ -58,9 +58,9 @@ pub struct CheckedImport<F> {
     local_report: &'static crate::report::TypeReport,
 }
 // SAFETY: `CheckedImport`s always refer to functions.
-unsafe impl<F> Send for CheckedImport<F> {}
+unsafe impl<F: Send> Send for CheckedImport<F> {}
 // SAFETY: `CheckedImport`s always refer to functions.
-unsafe impl<F> Sync for CheckedImport<F> {}
+unsafe impl<F: Send + Sync> Sync for CheckedImport<F> {}
 
 /// When reports mismatch between loader and loadee, both reports are exposed to allow debuging the issue.
 #[crate::stabby]
-- 
2.43.0


From 4db272a641f045fa825f844b8e038e06c9d4397e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:14 +0000
Subject: [PATCH 15/41] fix: only build shareable wakers on allocators that may
 cross threads

---
 stabby-abi/src/future.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/future.rs b/stabby-abi/src/future.rs
index b975f3d..464c05d 100644
--- a/stabby-abi/src/future.rs
+++ b/stabby-abi/src/future.rs
@@ -124,7 +124,7 @@ mod stable_waker {
         clone: unsafe extern "C" fn(StableLike<&'a Waker, &'a ()>) -> SharedStableWaker<Alloc>,
         wake_by_ref: StableLike<unsafe extern "C" fn(&Waker), &'a ()>,
     }
-    impl<Alloc: IAlloc + Default> StableWaker<'_, Alloc> {
+    impl<Alloc: IAlloc + Default + Send + Sync> StableWaker<'_, Alloc> {
         /// Turns this into a waker whose clone implementation is to clone the underlying waker into a stable Arc.
         pub fn with_waker<F: FnOnce(&Waker) -> U, U>(&self, f: F) -> U {
             const VTABLE: RawWakerVTable =
@@ -162,7 +162,7 @@ mod stable_waker {
             SharedStableWaker(shared)
         }
     }
-    impl<'a, Alloc: IAlloc + Default> From<&'a Waker> for StableWaker<'a, Alloc> {
+    impl<'a, Alloc: IAlloc + Default + Send + Sync> From<&'a Waker> for StableWaker<'a, Alloc> {
         fn from(value: &'a Waker) -> Self {
             StableWaker {
                 waker: StableLike::new(value),
-- 
2.43.0


From 8e0abe58006cb25581b9927925614a0627e38e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:47 +0000
Subject: [PATCH 16/41] fix: make SliceMut invariant in its elements' type

SliceMut's marker only mentioned the lifetime of the borrow, leaving it covariant in T. A `SliceMut<'_, &'static X>` could thus be shortened to `SliceMut<'_, &'short X>` and used to leave a dangling reference in the slice it points to.
---
 stabby-abi/src/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stabby-abi/src/slice.rs b/stabby-abi/src/slice.rs
index bf5325a..0d2e4b5 100644
--- a/stabby-abi/src/slice.rs
+++ b/stabby-abi/src/slice.rs
@@ -120,7 +120,7 @@ pub struct SliceMut<'a, T: 'a> {
     /// The length of the slice.
     pub len: usize,
     /// Ensures the slice has correct lifetime and variance.
-    pub marker: core::marker::PhantomData<&'a mut ()>,
+    pub marker: core::marker::PhantomData<&'a mut T>,
 }
 // SAFETY: SliceMut is analogous to a mutable reference
 unsafe impl<'a, T: 'a> Send for SliceMut<'a, T> where &'a mut T: Send {}
-- 
2.43.0


From a4af77bd09cd1b998db540ad7689b496a4095766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:34 +0000
Subject: [PATCH 17/41] fix: only let 'static types be Any

Reports and identifiers can't tell lifetimes apart, so downcasting a trait object built from a `&'a T` to `&'static T` used to succeed, from safe code. Like core::any::Any, require `'static`.
---
 stabby-abi/src/vtable/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stabby-abi/src/vtable/mod.rs b/stabby-abi/src/vtable/mod.rs
index e9bbb91..9df66c6 100644
--- a/stabby-abi/src/vtable/mod.rs
+++ b/stabby-abi/src/vtable/mod.rs
@@ -457,7 +457,7 @@ pub trait Any {
     /// The id of the type.
     extern "C" fn id(&self) -> u64;
 }
-impl<T: crate::IStable> Any for T {
+impl<T: crate::IStable + 'static> Any for T {
     extern "C" fn report(&self) -> &'static crate::report::TypeReport {
         Self::REPORT
     }
-- 
2.43.0


From 2b6e255ef5b835e08b20a5fb0c438f602275936c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:57 +0000
Subject: [PATCH 18/41] fix: make replacing a trait object's pointer unsafe

Swapping the pointers of two trait objects of different concrete types let safe code call methods on the wrong type.
---
 stabby-abi/src/fatptr.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stabby-abi/src/fatptr.rs b/stabby-abi/src/fatptr.rs
index 544c3f4..2327886 100644
--- a/stabby-abi/src/fatptr.rs
+++ b/stabby-abi/src/fatptr.rs
@@ -214,8 +214,11 @@ impl<'a, P: IPtrOwned + IPtr, Vt: HasDropVt + 'a> Dyn<'a, P, Vt> {
         &self.ptr
     }
     /// Access the data pointer mutably.
+    ///
+    /// # Safety
+    /// The pointer may only be replaced by one to a value of the type `self`'s vtable was built for.
     #[allow(clippy::missing_const_for_fn)]
-    pub fn ptr_mut(&mut self) -> &mut P {
+    pub unsafe fn ptr_mut(&mut self) -> &mut P {
         &mut self.ptr
     }
     /// Access the vtable.
-- 
2.43.0


From 61040f46cc1d200ddc7464d81d0532de4d4f591b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:57 +0000
Subject: [PATCH 19/41] fix: make replacing a vector's allocator unsafe

The allocator frees the buffer: swapping those of two vectors let safe code free memory with the wrong allocator.
---
 stabby-abi/src/alloc/vec.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stabby-abi/src/alloc/vec.rs b/stabby-abi/src/alloc/vec.rs
index f971e08..c727b9b 100644
--- a/stabby-abi/src/alloc/vec.rs
+++ b/stabby-abi/src/alloc/vec.rs
@@ -445,8 +445,11 @@ impl<T, Alloc: IAlloc> Vec<T, Alloc> {
         &self.inner.alloc
     }
     /// Returns a mutable reference to the vector's allocator.
+    ///
+    /// # Safety
+    /// The allocator may only be replaced by one that can reallocate and free the vector's buffer.
     #[rustversion::attr(since(1.86), const)]
-    pub fn allocator_mut(&mut self) -> &mut Alloc {
+    pub unsafe fn allocator_mut(&mut self) -> &mut Alloc {
         &mut self.inner.alloc
     }
 }
-- 
2.43.0


From de5b8a498c953b89a74039aafcad27451bda35b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:48 +0000
Subject: [PATCH 20/41] fix: make reading a determinant off a raw pointer
 unsafe

---
 stabby-abi/src/enums/mod.rs | 14 ++++++++------
 stabby-abi/src/result.rs    |  2 +-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/stabby-abi/src/enums/mod.rs b/stabby-abi/src/enums/mod.rs
index 6268d0d..49066be 100644
--- a/stabby-abi/src/enums/mod.rs
+++ b/stabby-abi/src/enums/mod.rs
@@ -34,7 +34,9 @@ pub trait IDeterminant: IStable {
     /// This function MUST be called after setting `union` to a valid value for type `Err`
     unsafe fn err(union: *mut u8) -> Self;
     /// Returns the state of the union.
-    fn is_det_ok(&self, union: *const u8) -> bool;
+    /// # Safety
+    /// `union` MUST point to the union `self` is the determinant of.
+    unsafe fn is_det_ok(&self, union: *const u8) -> bool;
     /// Whether the determinant is explicit or implicit.
     type IsNicheTrick: Bit;
 }
@@ -68,7 +70,7 @@ impl IDeterminant for BitDeterminant {
     unsafe fn err(_: *mut u8) -> Self {
         BitDeterminant::Err
     }
-    fn is_det_ok(&self, _: *const u8) -> bool {
+    unsafe fn is_det_ok(&self, _: *const u8) -> bool {
         (*self as u8 & 1) == 0
     }
     type IsNicheTrick = B0;
@@ -80,7 +82,7 @@ impl IDeterminant for End {
     unsafe fn err(_: *mut u8) -> Self {
         End
     }
-    fn is_det_ok(&self, _: *const u8) -> bool {
+    unsafe fn is_det_ok(&self, _: *const u8) -> bool {
         false
     }
     type IsNicheTrick = B0;
@@ -129,7 +131,7 @@ where
         *ptr.add(Offset::USIZE) = Value::U8;
         ValueIsErr(PhantomData, Tail::err(union))
     }
-    fn is_det_ok(&self, union: *const u8) -> bool {
+    unsafe fn is_det_ok(&self, union: *const u8) -> bool {
         let ptr = union;
         unsafe { *ptr.add(Offset::USIZE) != Value::U8 || self.1.is_det_ok(union) }
     }
@@ -175,7 +177,7 @@ impl<Offset: Unsigned, Mask: Unsigned> IDeterminant for BitIsErr<Offset, Mask> {
         *ptr.add(Offset::USIZE) |= Mask::U8;
         BitIsErr(PhantomData)
     }
-    fn is_det_ok(&self, union: *const u8) -> bool {
+    unsafe fn is_det_ok(&self, union: *const u8) -> bool {
         let ptr = union;
         unsafe { *ptr.add(Offset::USIZE) & Mask::U8 == 0 }
     }
@@ -207,7 +209,7 @@ where
     unsafe fn err(union: *mut u8) -> Self {
         Not(Determinant::ok(union))
     }
-    fn is_det_ok(&self, union: *const u8) -> bool {
+    unsafe fn is_det_ok(&self, union: *const u8) -> bool {
         !self.0.is_det_ok(union)
     }
     type IsNicheTrick = Determinant::IsNicheTrick;
diff --git a/stabby-abi/src/result.rs b/stabby-abi/src/result.rs
index 3719c1e..55806d2 100644
--- a/stabby-abi/src/result.rs
+++ b/stabby-abi/src/result.rs
@@ -386,7 +386,7 @@ where
     }
     /// Returns `true` if in the `Ok` variant.
     pub fn is_ok(&self) -> bool {
-        unsafe { &*Self::det_ptr(&self.storage) }.is_det_ok(self.storage.as_ptr())
+        unsafe { (*Self::det_ptr(&self.storage)).is_det_ok(self.storage.as_ptr()) }
     }
     /// Returns `true` if in the `Err` variant.
     pub fn is_err(&self) -> bool {
-- 
2.43.0


From 19b8a6f33b28aaa46792f2cabf983ef5419d91b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:31 +0000
Subject: [PATCH 21/41] fix: accept elided lifetimes in checked traits

---
 stabby-macros/src/traits.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/stabby-macros/src/traits.rs b/stabby-macros/src/traits.rs
index cd83189..aa05d91 100644
--- a/stabby-macros/src/traits.rs
+++ b/stabby-macros/src/traits.rs
@@ -1104,9 +1104,7 @@ impl Ty {
         match self {
             Ty::Never | Ty::Unit => {}
             Ty::Reference { lifetime, elem, .. } => {
-                if let Some(lt) = lifetime {
-                    *lt = syn::Lifetime::new("'static", Span::call_site())
-                }
+                *lifetime = Some(syn::Lifetime::new("'static", Span::call_site()));
                 elem.elide_lifetime();
             }
             Ty::Array { elem, .. }
-- 
2.43.0


From 94e30dc453152b8bee2fcc52cd8b74369cc9dd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 22/41] fix: check arrays and function pointers in checked
 traits

---
 stabby-macros/src/traits.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/stabby-macros/src/traits.rs b/stabby-macros/src/traits.rs
index aa05d91..61acac0 100644
--- a/stabby-macros/src/traits.rs
+++ b/stabby-macros/src/traits.rs
@@ -982,7 +982,10 @@ impl PartialEq for Ty {
                     && l_mutability.is_some() == r_mutability.is_some()
                     && l_elem == r_elem
             }
-            (Self::Array { .. }, _) | (Self::BareFn { .. }, _) => false,
+            (Self::Array { .. }, Self::Array { .. })
+            | (Self::BareFn { .. }, Self::BareFn { .. }) => {
+                quote!(#self).to_string() == quote!(#other).to_string()
+            }
             (
                 Self::Path {
                     segment: l_segment,
@@ -1112,7 +1115,10 @@ impl Ty {
             | Ty::LeadingColon { next: elem }
             | Ty::Arbitrary { next: elem, .. }
             | Ty::SelfReferencial(elem) => elem.elide_lifetime(),
-            Ty::BareFn { .. } => {}
+            Ty::BareFn { inputs, output, .. } => {
+                inputs.iter_mut().for_each(Self::elide_lifetime);
+                output.elide_lifetime();
+            }
             Ty::Path {
                 arguments, next, ..
             } => {
-- 
2.43.0


From 9770e67f998b9a9dc9a38d85866871a1b9bd9e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 23/41] fix: allow asking for the opt_level and num_jobs
 canaries

---
 stabby-macros/src/functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stabby-macros/src/functions.rs b/stabby-macros/src/functions.rs
index 4e12d77..a81d075 100644
--- a/stabby-macros/src/functions.rs
+++ b/stabby-macros/src/functions.rs
@@ -188,7 +188,7 @@ impl FromStr for CanarySpec {
         }
         let known = Self::ARRAY.iter().map(|s| s.0).collect::<Vec<_>>();
         if s.chars()
-            .any(|c| !(c.is_alphabetic() || c == ' ' || c == ','))
+            .any(|c| !(c.is_alphabetic() || matches!(c, '_' | ' ' | ',')))
         {
             return Err(format!("Invalid canary-spec: `{s}` must be a comma-separated list of canary identifiers ({known:?})"));
         }
-- 
2.43.0


From ae4f74f97adefa8602e554a71c96b5e9b8fe7cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 24/41] fix: compare the number of fields in is_compatible

---
 stabby-abi/src/report.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stabby-abi/src/report.rs b/stabby-abi/src/report.rs
index 433d235..d7db2fb 100644
--- a/stabby-abi/src/report.rs
+++ b/stabby-abi/src/report.rs
@@ -69,6 +69,7 @@ impl TypeReport {
             && self.module == other.module
             && self.version == other.version
             && self.tyty == other.tyty
+            && self.fields().count() == other.fields().count()
             && self
                 .fields()
                 .zip(other.fields())
-- 
2.43.0


From 6d8ed9648a57085016a3be3d9186bce79a0d3ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 25/41] fix: hash the version and delimit every part of a
 report in type identifiers

---
 stabby-abi/src/report.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/stabby-abi/src/report.rs b/stabby-abi/src/report.rs
index d7db2fb..807ed17 100644
--- a/stabby-abi/src/report.rs
+++ b/stabby-abi/src/report.rs
@@ -135,21 +135,27 @@ impl Iterator for Fields {
     }
 }
 
+/// Feeds a string to the hash, preceded by its length so that consecutive strings can't be confused.
+const fn hash_str(hash: Sha256, s: Str<'static>) -> Sha256 {
+    let bytes = s.as_str().as_bytes();
+    hash.update(&(bytes.len() as u64).to_le_bytes())
+        .update(bytes)
+}
 const fn hash_report(mut hash: Sha256, report: &TypeReport) -> Sha256 {
-    hash = hash
-        .update(report.module.as_str().as_bytes())
-        .update(report.name.as_str().as_bytes());
+    hash = hash_str(hash_str(hash, report.module), report.name);
     hash = match report.tyty {
         crate::report::TyTy::Struct => hash.update(&[0]),
         crate::report::TyTy::Union => hash.update(&[1]),
-        crate::report::TyTy::Enum(s) => hash.update(s.as_str().as_bytes()),
+        crate::report::TyTy::Enum(s) => hash_str(hash.update(&[2]), s),
     };
+    hash = hash.update(&report.version.to_le_bytes());
     let mut fields = report.fields();
     while let (new, Some(next)) = fields.next_const() {
         fields = new;
-        hash = hash_report(hash.update(next.name.as_str().as_bytes()), next.ty)
+        hash = hash_report(hash_str(hash.update(&[1]), next.name), next.ty)
     }
-    hash
+    // Marks the end of the fields, so that a field can't be confused with one of its type's.
+    hash.update(&[0])
 }
 const ARCH_INFO: [u8; 8] = [
     0,
-- 
2.43.0


From 725c781a33a3225eb731e9a421e607b367b2610f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 26/41] fix: report what ManuallyDrop, MaybeUninit and
 UnsafeCell contain

---
 stabby-abi/src/stable_impls/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/stabby-abi/src/stable_impls/mod.rs b/stabby-abi/src/stable_impls/mod.rs
index aed1479..ff24169 100644
--- a/stabby-abi/src/stable_impls/mod.rs
+++ b/stabby-abi/src/stable_impls/mod.rs
@@ -533,8 +533,9 @@ unsafe impl IStable for core::num::NonZeroIsize {
 
 // SAFETY: Automatic checks verify this.
 unsafe impl<T: IStable> IStable for core::mem::ManuallyDrop<T> {
-    same_as!(T, <T as IStable>::REPORT.name.as_str());
-    type HasExactlyOneNiche = T::HasExactlyOneNiche;
+    same_as!(T);
+    const REPORT: &'static report::TypeReport = T::REPORT;
+    const ID: u64 = crate::report::gen_id(Self::REPORT);
     type ContainsIndirections = T::ContainsIndirections;
 }
 // SAFETY: Automatic checks verify this.
@@ -546,7 +547,7 @@ unsafe impl<T: IStable> IStable for core::mem::MaybeUninit<T> {
     type ForbiddenValues = End;
     #[cfg(feature = "experimental-ctypes")]
     type CType = T::CType;
-    primitive_report!(<T as IStable>::REPORT.name.as_str());
+    primitive_report!("core::mem::MaybeUninit", T);
     type HasExactlyOneNiche = B0;
     type ContainsIndirections = T::ContainsIndirections;
 }
@@ -559,7 +560,7 @@ unsafe impl<T: IStable> IStable for core::cell::UnsafeCell<T> {
     type ForbiddenValues = T::ForbiddenValues;
     #[cfg(feature = "experimental-ctypes")]
     type CType = T::CType;
-    primitive_report!(<T as IStable>::REPORT.name.as_str());
+    primitive_report!("core::cell::UnsafeCell", T);
     // Rust doesn't look for niches in `UnsafeCell`s.
     type HasExactlyOneNiche = B0;
     type ContainsIndirections = T::ContainsIndirections;
-- 
2.43.0


From 7880720f4eb59c247b797f41dacad0548e8e75c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 27/41] fix: report both variants of core::result::Result

---
 stabby-abi/src/stable_impls/mod.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/stabby-abi/src/stable_impls/mod.rs b/stabby-abi/src/stable_impls/mod.rs
index ff24169..c1fc340 100644
--- a/stabby-abi/src/stable_impls/mod.rs
+++ b/stabby-abi/src/stable_impls/mod.rs
@@ -783,7 +783,11 @@ unsafe impl<Ok: IStable, Err: IStable> IStable
         fields: StableLike::new(Some(&report::FieldReport {
             name: Str::new("Ok"),
             ty: Ok::REPORT,
-            next_field: StableLike::new(None),
+            next_field: StableLike::new(Some(&report::FieldReport {
+                name: Str::new("Err"),
+                ty: Err::REPORT,
+                next_field: StableLike::new(None),
+            })),
         })),
         version: 0,
         tyty: report::TyTy::Enum(Str::new("rust")),
@@ -818,9 +822,13 @@ unsafe impl<Ok: IStable, Err: IStable, T> IStable
         name: Str::new("Result"),
         module: Str::new("core::result"),
         fields: StableLike::new(Some(&report::FieldReport {
-            name: Str::new("Err"),
-            ty: Err::REPORT,
-            next_field: StableLike::new(None),
+            name: Str::new("Ok"),
+            ty: Ok::REPORT,
+            next_field: StableLike::new(Some(&report::FieldReport {
+                name: Str::new("Err"),
+                ty: Err::REPORT,
+                next_field: StableLike::new(None),
+            })),
         })),
         version: 0,
         tyty: report::TyTy::Enum(Str::new("rust")),
-- 
2.43.0


From 20db474bd35c860fd4913aff8c6fd876f0f3d90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 28/41] fix: report which value NonX numbers forbid

---
 stabby-abi/src/num.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/stabby-abi/src/num.rs b/stabby-abi/src/num.rs
index 229d263..7b7ce1b 100644
--- a/stabby-abi/src/num.rs
+++ b/stabby-abi/src/num.rs
@@ -91,6 +91,15 @@ macro_rules! define_non_max {
         }
     };
 }
+const fn hex(n: u128) -> [u8; 32] {
+    let mut hex = [0; 32];
+    let mut i = 0;
+    while i < 32 {
+        hex[i] = b"0123456789abcdef"[((n >> (124 - 4 * i)) & 0xf) as usize];
+        i += 1;
+    }
+    hex
+}
 macro_rules! define_non_x {
     ($NonMaxU8:ident: $u8: ty = $NonZeroU8: ty; $u8s: literal ) => {
         /// A number whose value is guaranteed not to be `FORBIDDEN`.
@@ -105,6 +114,11 @@ macro_rules! define_non_x {
             inner: $NonZeroU8,
         }
         impl<const FORBIDDEN: $u8> $NonMaxU8<{ FORBIDDEN }> {
+            const FORBIDDEN_HEX: &'static str =
+                match core::str::from_utf8(&hex(FORBIDDEN as u128)) {
+                    Ok(hex) => hex,
+                    Err(_) => unreachable!(),
+                };
             /// Construct `Self`, returning `None` if `n` is the `FORBIDDEN` value.
             pub const fn new(n: $u8) -> Option<Self> {
                 match <$NonZeroU8>::new(n.wrapping_sub(FORBIDDEN)) {
@@ -165,7 +179,12 @@ macro_rules! define_non_x {
             const REPORT: &'static $crate::report::TypeReport = &$crate::report::TypeReport {
                 name: $crate::str::Str::new(stringify!($NonMaxU8)),
                 module: $crate::str::Str::new(core::module_path!()),
-                fields: $crate::StableLike::new(None),
+                fields: $crate::StableLike::new(Some(&$crate::report::FieldReport {
+                    // Types that forbid distinct values represent the same number differently.
+                    name: $crate::str::Str::new(Self::FORBIDDEN_HEX),
+                    ty: <$NonZeroU8 as crate::IStable>::REPORT,
+                    next_field: $crate::StableLike::new(None),
+                })),
                 version: 0,
                 tyty: $crate::report::TyTy::Struct,
             };
-- 
2.43.0


From e1fcf60993d784cbbf85069c9b6b093f1de076df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 29/41] fix: report whether an enum's payloads follow its tag
 in a union

---
 stabby-macros/src/enums.rs | 6 +++++-
 stabby-macros/src/lib.rs   | 8 +++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/stabby-macros/src/enums.rs b/stabby-macros/src/enums.rs
index d2d01a0..477c9a7 100644
--- a/stabby-macros/src/enums.rs
+++ b/stabby-macros/src/enums.rs
@@ -285,7 +285,11 @@ pub fn stabby(
     } else {
         quote!(#st::Tuple<#reprid, #layout>)
     };
-    report.tyty = crate::Tyty::Enum(trepr);
+    report.tyty = if has_non_empty_fields && !is_union_of_structs {
+        crate::Tyty::CEnum(trepr)
+    } else {
+        crate::Tyty::Enum(trepr)
+    };
     let report_bounds = report.bounds();
     let ctype = cfg!(feature = "experimental-ctypes").then(|| {
         if is_union_of_structs {
diff --git a/stabby-macros/src/lib.rs b/stabby-macros/src/lib.rs
index 6799931..c4e0bb1 100644
--- a/stabby-macros/src/lib.rs
+++ b/stabby-macros/src/lib.rs
@@ -276,6 +276,8 @@ pub(crate) enum Tyty {
     Struct,
     Union,
     Enum(enums::Repr),
+    /// An enum whose tag is followed by a union of its payloads, as `#[repr(C)]` demands.
+    CEnum(enums::Repr),
 }
 impl ToTokens for Tyty {
     fn to_tokens(&self, tokens: &mut proc_macro2::TokenStream) {
@@ -287,6 +289,10 @@ impl ToTokens for Tyty {
                 let s = format!("{r:?}");
                 quote!(#st::report::TyTy::Enum(#st::str::Str::new(#s)))
             }
+            Tyty::CEnum(r) => {
+                let s = format!("C, {r:?}");
+                quote!(#st::report::TyTy::Enum(#st::str::Str::new(#s)))
+            }
         };
         tokens.extend(tyty);
     }
@@ -408,7 +414,7 @@ impl Report {
                 }
                 quote! {<#crepr as #st::IStable>::CType}
             }
-            Tyty::Enum(r) => {
+            Tyty::Enum(r) | Tyty::CEnum(r) => {
                 let mut clone = self.clone();
                 clone.tyty = Tyty::Union;
                 let crepr = clone.crepr();
-- 
2.43.0


From 288bf24de7323029093484d47f94c8b285cbd017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:22 +0000
Subject: [PATCH 30/41] fix: build with stabby_vtables="vec" and
 stabby_unsafe_wakers="true"

not(stabby_vtables) and not(stabby_unsafe_wakers) hold when those cfgs are given a value, as documented, so both
alternatives were compiled and the crate was rejected.
---
 stabby-abi/src/future.rs     | 2 +-
 stabby-abi/src/vtable/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/future.rs b/stabby-abi/src/future.rs
index 464c05d..ae6a183 100644
--- a/stabby-abi/src/future.rs
+++ b/stabby-abi/src/future.rs
@@ -47,7 +47,7 @@ mod stable_waker {
         }
     }
 }
-#[cfg(any(not(stabby_unsafe_wakers), stabby_unsafe_wakers = "false"))]
+#[cfg(not(stabby_unsafe_wakers = "true"))]
 mod stable_waker {
     use core::{
         mem::ManuallyDrop,
diff --git a/stabby-abi/src/vtable/mod.rs b/stabby-abi/src/vtable/mod.rs
index 9df66c6..bfc675a 100644
--- a/stabby-abi/src/vtable/mod.rs
+++ b/stabby-abi/src/vtable/mod.rs
@@ -205,7 +205,7 @@ pub(crate) mod internal {
         crate::alloc::vec::Vec<VTable>,
         DefaultAllocator,
     > = crate::alloc::sync::AtomicArc::new(None);
-    #[cfg(any(stabby_vtables = "btree", not(stabby_vtables)))]
+    #[cfg(any(stabby_vtables = "btree", not(stabby_vtables = "vec")))]
     #[rustversion::all(not(nightly), since(1.78.0))]
     pub(crate) static VTABLES: AtomicArcBTreeSet<VTable, false, 5> = AtomicArcBTreeSet::new();
     #[rustversion::nightly]
-- 
2.43.0


From cdba046513047720371f350161c1f642f0d916a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:23 +0000
Subject: [PATCH 31/41] fix: keep the comma of one-element tuples in annotated
 types

---
 stabby-macros/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/stabby-macros/src/lib.rs b/stabby-macros/src/lib.rs
index c4e0bb1..1bf329f 100644
--- a/stabby-macros/src/lib.rs
+++ b/stabby-macros/src/lib.rs
@@ -708,7 +708,14 @@ impl Unself for syn::Type {
             syn::Type::Tuple(syn::TypeTuple { paren_token, elems }) => {
                 syn::Type::Tuple(syn::TypeTuple {
                     paren_token: *paren_token,
-                    elems: elems.iter().map(|ty| ty.unself(this)).collect(),
+                    // The trailing comma is what distinguishes `(T,)` from `(T)`.
+                    elems: elems
+                        .pairs()
+                        .map(|pair| {
+                            let (ty, comma) = pair.into_tuple();
+                            syn::punctuated::Pair::new(ty.unself(this), comma.copied())
+                        })
+                        .collect(),
                 })
             }
             o => o.clone(),
-- 
2.43.0


From 82e22830ec354b48e452902e3055806133179cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:58 +0000
Subject: [PATCH 32/41] fix: release and acquire the counts of shared pointers

The decrements that decide who destroys a shared object, and the reads that decide whether a handle is the only
one, were relaxed: the uses made through the other handles did not happen before the destruction or mutation.
---
 stabby-abi/src/alloc/sync.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index 9036d1a..c429845 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -210,7 +210,7 @@ impl<T, Alloc: IAlloc> Arc<T, Alloc> {
 
     /// Returns the strong count.
     pub fn strong_count(this: &Self) -> usize {
-        unsafe { this.ptr.prefix() }.strong.load(Ordering::Relaxed)
+        unsafe { this.ptr.prefix() }.strong.load(Ordering::Acquire)
     }
     /// Increments the strong count.
     /// # Safety
@@ -226,7 +226,7 @@ impl<T, Alloc: IAlloc> Arc<T, Alloc> {
     }
     /// Returns the weak count. Note that all Arcs to a same value share a Weak, so the weak count can never be 0.
     pub fn weak_count(this: &Self) -> usize {
-        unsafe { this.ptr.prefix() }.weak.load(Ordering::Relaxed)
+        unsafe { this.ptr.prefix() }.weak.load(Ordering::Acquire)
     }
     /// Increments the weak count, returning its previous value.
     pub fn increment_weak_count(this: &Self) -> usize {
@@ -286,7 +286,7 @@ impl<T, Alloc: IAlloc> Drop for Arc<T, Alloc> {
     fn drop(&mut self) {
         if unsafe { self.ptr.prefix() }
             .strong
-            .fetch_sub(1, Ordering::Relaxed)
+            .fetch_sub(1, Ordering::AcqRel)
             != 1
         {
             return;
@@ -383,7 +383,7 @@ impl<T, Alloc: IAlloc> Drop for Weak<T, Alloc> {
     fn drop(&mut self) {
         if unsafe { self.ptr.prefix() }
             .weak
-            .fetch_sub(1, Ordering::Relaxed)
+            .fetch_sub(1, Ordering::AcqRel)
             != 1
         {
             return;
@@ -441,11 +441,11 @@ impl<T, Alloc: IAlloc> ArcSlice<T, Alloc> {
     }
     /// Returns the strong count to the slice.
     pub fn strong_count(this: &Self) -> usize {
-        unsafe { this.inner.start.prefix().strong.load(Ordering::Relaxed) }
+        unsafe { this.inner.start.prefix().strong.load(Ordering::Acquire) }
     }
     /// Returns the weak count to the slice.
     pub fn weak_count(this: &Self) -> usize {
-        unsafe { this.inner.start.prefix().weak.load(Ordering::Relaxed) }
+        unsafe { this.inner.start.prefix().weak.load(Ordering::Acquire) }
     }
     /// Whether or not `this` is the sole owner of its data, including weak owners.
     pub fn is_unique(this: &Self) -> bool {
@@ -586,7 +586,7 @@ impl<T, Alloc: IAlloc> Drop for ArcSlice<T, Alloc> {
     fn drop(&mut self) {
         if unsafe { self.inner.start.prefix() }
             .strong
-            .fetch_sub(1, Ordering::Relaxed)
+            .fetch_sub(1, Ordering::AcqRel)
             != 1
         {
             return;
@@ -713,7 +713,7 @@ impl<T, Alloc: IAlloc> Drop for WeakSlice<T, Alloc> {
     fn drop(&mut self) {
         if unsafe { self.inner.start.prefix() }
             .weak
-            .fetch_sub(1, Ordering::Relaxed)
+            .fetch_sub(1, Ordering::AcqRel)
             != 1
         {
             return;
@@ -744,7 +744,7 @@ impl<T, Alloc: IAlloc> crate::IPtrOwned for Arc<T, Alloc> {
     fn drop(this: &mut core::mem::ManuallyDrop<Self>, drop: unsafe extern "C" fn(&mut ())) {
         if unsafe { this.ptr.prefix() }
             .strong
-            .fetch_sub(1, Ordering::Relaxed)
+            .fetch_sub(1, Ordering::AcqRel)
             != 1
         {
             return;
@@ -772,7 +772,7 @@ impl<T, Alloc: IAlloc> crate::IPtrOwned for Weak<T, Alloc> {
     fn drop(this: &mut core::mem::ManuallyDrop<Self>, drop: unsafe extern "C" fn(&mut ())) {
         if unsafe { this.ptr.prefix() }
             .strong
-            .fetch_sub(1, Ordering::Relaxed)
+            .fetch_sub(1, Ordering::AcqRel)
             != 1
         {
             return;
-- 
2.43.0


From acac4c6497a71dc01ec3afb7abf8c0f46000b74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:17 +0000
Subject: [PATCH 33/41] fix: acquire what was published before dereferencing it

A checked import marked as validated, and the root of an atomic B-tree set, were read with relaxed loads and then
dereferenced.
---
 stabby-abi/src/alloc/collections/arc_btree.rs | 2 +-
 stabby-abi/src/checked_import.rs              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/alloc/collections/arc_btree.rs b/stabby-abi/src/alloc/collections/arc_btree.rs
index ca89d12..8aacff6 100644
--- a/stabby-abi/src/alloc/collections/arc_btree.rs
+++ b/stabby-abi/src/alloc/collections/arc_btree.rs
@@ -69,7 +69,7 @@ where
     where
         T: PartialOrd<K>,
     {
-        let set = ArcBTreeSet::copy_from_ptr(self.0.load(core::sync::atomic::Ordering::Relaxed));
+        let set = ArcBTreeSet::copy_from_ptr(self.0.load(core::sync::atomic::Ordering::Acquire));
         f(set.get(value))
     }
 }
diff --git a/stabby-abi/src/checked_import.rs b/stabby-abi/src/checked_import.rs
index 4bb1e1f..448c3ae 100644
--- a/stabby-abi/src/checked_import.rs
+++ b/stabby-abi/src/checked_import.rs
@@ -109,7 +109,7 @@ impl<F> CheckedImport<F> {
     /// Returns a [`ReportMismatch`] if the local and loaded reports differ.
     pub fn as_ref(&self) -> Result<&F, ReportMismatch> {
         loop {
-            match self.checked.load(Ordering::Relaxed) {
+            match self.checked.load(Ordering::Acquire) {
                 UNCHECKED => match unsafe { (self.checker)(self.local_report) } {
                     Some(result) => {
                         if self
-- 
2.43.0


From e4a7a6566d978e58625eb83aceb7a80936366b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:08 +0000
Subject: [PATCH 34/41] fix: upgrade weak handles with a single atomic update

Marking the count with its top bit let two concurrent upgrades of the last handle see each other's mark: one
declared the object dead and reset the count while the other returned a strong handle nobody counted.
---
 stabby-abi/src/alloc/sync.rs | 38 +++++++++++++-----------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index c429845..c43b168 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -357,18 +357,13 @@ impl<T, Alloc: IAlloc> Weak<T, Alloc> {
     /// Attempts to upgrade self into an Arc.
     pub fn upgrade(&self) -> Option<Arc<T, Alloc>> {
         let strong = &unsafe { self.ptr.prefix() }.strong;
-        let count = strong.fetch_or(USIZE_TOP_BIT, Ordering::Acquire);
-        match count {
-            0 | USIZE_TOP_BIT => {
-                strong.store(0, Ordering::Release);
-                None
-            }
-            _ => {
-                strong.fetch_add(1, Ordering::Release);
-                strong.fetch_and(!USIZE_TOP_BIT, Ordering::Release);
-                Some(Arc { ptr: self.ptr })
-            }
-        }
+        strong
+            .fetch_update(Ordering::Acquire, Ordering::Relaxed, |count| match count {
+                0 | USIZE_TOP_BIT => None,
+                _ => Some(count + 1),
+            })
+            .ok()
+            .map(|_| Arc { ptr: self.ptr })
     }
 }
 impl<T, Alloc: IAlloc> Clone for Weak<T, Alloc> {
@@ -650,18 +645,13 @@ impl<T, Alloc: IAlloc> WeakSlice<T, Alloc> {
     /// Return a strong reference to the slice if it hasn't been destroyed yet.
     pub fn upgrade(&self) -> Option<ArcSlice<T, Alloc>> {
         let strong = &unsafe { self.inner.start.prefix() }.strong;
-        let count = strong.fetch_or(USIZE_TOP_BIT, Ordering::Acquire);
-        match count {
-            0 | USIZE_TOP_BIT => {
-                strong.store(0, Ordering::Release);
-                None
-            }
-            _ => {
-                strong.fetch_add(1, Ordering::Release);
-                strong.fetch_and(!USIZE_TOP_BIT, Ordering::Release);
-                Some(ArcSlice { inner: self.inner })
-            }
-        }
+        strong
+            .fetch_update(Ordering::Acquire, Ordering::Relaxed, |count| match count {
+                0 | USIZE_TOP_BIT => None,
+                _ => Some(count + 1),
+            })
+            .ok()
+            .map(|_| ArcSlice { inner: self.inner })
     }
     /// For types that are [`Copy`], the slice actually remains valid even after all strong references
     /// have been dropped as long as at least a weak reference lives on.
-- 
2.43.0


From 3241c24d66f7b480934234ec9b4f4662623c090e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:08 +0000
Subject: [PATCH 35/41] fix: dropping a weak trait object gives up its weak
 handle

It gave up a strong handle instead, destroying the object under the remaining strong handles.
---
 stabby-abi/src/alloc/sync.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index c43b168..0a0b363 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -759,18 +759,9 @@ impl<T, Alloc: IAlloc> IntoDyn for Arc<T, Alloc> {
 }
 
 impl<T, Alloc: IAlloc> crate::IPtrOwned for Weak<T, Alloc> {
-    fn drop(this: &mut core::mem::ManuallyDrop<Self>, drop: unsafe extern "C" fn(&mut ())) {
-        if unsafe { this.ptr.prefix() }
-            .strong
-            .fetch_sub(1, Ordering::AcqRel)
-            != 1
-        {
-            return;
-        }
-        unsafe {
-            drop(this.ptr.cast().as_mut());
-            _ = Weak::<T, Alloc>::from_raw(this.ptr);
-        }
+    fn drop(this: &mut core::mem::ManuallyDrop<Self>, _: unsafe extern "C" fn(&mut ())) {
+        // SAFETY: `this` is never used after `IPtrOwned::drop`. The pointee belongs to the strong handles.
+        unsafe { core::mem::ManuallyDrop::drop(this) }
     }
 }
 
-- 
2.43.0


From 325965878f300e8ca87cd368b71f2973ae1a354b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:18 +0000
Subject: [PATCH 36/41] fix: converting an Arc into an ArcSlice keeps its share

The Arc was dropped at the end of the conversion, so the slice used freed memory.
---
 stabby-abi/src/alloc/sync.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index 0a0b363..87ce8f1 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -479,10 +479,11 @@ impl<T, Alloc: IAlloc> Clone for ArcSlice<T, Alloc> {
 impl<T, Alloc: IAlloc> From<Arc<T, Alloc>> for ArcSlice<T, Alloc> {
     fn from(mut value: Arc<T, Alloc>) -> Self {
         unsafe { value.ptr.prefix_mut() }.capacity = AtomicUsize::new(1);
+        let start = Arc::into_raw(value);
         Self {
             inner: AllocSlice {
-                start: value.ptr,
-                end: ptr_add(value.ptr.ptr, 1),
+                start,
+                end: ptr_add(start.ptr, 1),
             },
         }
     }
-- 
2.43.0


From 115f0bcff8a10517d2026f2483382bba359d27f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:37 +0000
Subject: [PATCH 37/41] fix: store the allocator of an empty ArcSlice in its
 own block

It was written through the dangling pointer of the empty vector.
---
 stabby-abi/src/alloc/sync.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index 87ce8f1..7d93eac 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -522,7 +522,7 @@ impl<T, Alloc: IAlloc> From<Vec<T, Alloc>> for ArcSlice<T, Alloc> {
                         start.ptr.cast::<u8>(),
                     ))
                 };
-                slice.start.prefix_mut().alloc.write(alloc);
+                start.prefix_mut().alloc.write(alloc);
             }
             Self {
                 inner: AllocSlice {
-- 
2.43.0


From 776fd2c316695c24d68bd778c5e34eeef9446f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:47 +0000
Subject: [PATCH 38/41] fix: a failed compare_exchange gives up the handle it
 was given

The new handle was leaked when the atomic pointer had changed.
---
 stabby-abi/src/alloc/sync.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index 7d93eac..d099155 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -904,13 +904,22 @@ impl<T, Alloc: IAlloc> AtomicArc<T, Alloc> {
                     marker: PhantomData,
                 })
             })),
-            Err(ptr) => Err(NonNull::new(ptr).map(|ptr| unsafe {
-                Arc::<T, Alloc>::increment_strong_count(ptr.as_ptr());
-                Arc::from_raw(AllocPtr {
-                    ptr,
-                    marker: PhantomData,
-                })
-            })),
+            Err(ptr) => {
+                // SAFETY: `new` was not stored: it is still ours to give up.
+                drop(NonNull::new(new).map(|ptr| unsafe {
+                    Arc::<T, Alloc>::from_raw(AllocPtr {
+                        ptr,
+                        marker: PhantomData,
+                    })
+                }));
+                Err(NonNull::new(ptr).map(|ptr| unsafe {
+                    Arc::<T, Alloc>::increment_strong_count(ptr.as_ptr());
+                    Arc::from_raw(AllocPtr {
+                        ptr,
+                        marker: PhantomData,
+                    })
+                }))
+            }
         }
     }
 }
-- 
2.43.0


From cef10b7f8f7ccf4a1b371a4609cbc801393daccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:22 +0000
Subject: [PATCH 39/41] fix: dropping an atomic tree set gives up its root

---
 stabby-abi/src/alloc/collections/arc_btree.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/stabby-abi/src/alloc/collections/arc_btree.rs b/stabby-abi/src/alloc/collections/arc_btree.rs
index 8aacff6..06f7e7b 100644
--- a/stabby-abi/src/alloc/collections/arc_btree.rs
+++ b/stabby-abi/src/alloc/collections/arc_btree.rs
@@ -12,6 +12,16 @@ pub struct AtomicArcBTreeSet<T: Ord, const REPLACE_ON_INSERT: bool, const SPLIT_
 )
 where
     DefaultAllocator: core::default::Default + IAlloc;
+impl<T: Ord, const REPLACE_ON_INSERT: bool, const SPLIT_LIMIT: usize> Drop
+    for AtomicArcBTreeSet<T, REPLACE_ON_INSERT, SPLIT_LIMIT>
+where
+    DefaultAllocator: core::default::Default + IAlloc,
+{
+    fn drop(&mut self) {
+        // SAFETY: the cell owns the root it points to, and nobody else can read the cell anymore.
+        drop(unsafe { ArcBTreeSet::take_ownership_from_ptr(*self.0.get_mut()) });
+    }
+}
 impl<T: Ord + Clone, const REPLACE_ON_INSERT: bool, const SPLIT_LIMIT: usize> Default
     for AtomicArcBTreeSet<T, REPLACE_ON_INSERT, SPLIT_LIMIT>
 where
@@ -247,7 +257,7 @@ impl<T, Alloc: IAlloc, const REPLACE_ON_INSERT: bool, const SPLIT_LIMIT: usize>
         }
     }
 }
-impl<T: Ord + Clone, const REPLACE_ON_INSERT: bool, const SPLIT_LIMIT: usize>
+impl<T: Ord, const REPLACE_ON_INSERT: bool, const SPLIT_LIMIT: usize>
     ArcBTreeSet<T, DefaultAllocator, REPLACE_ON_INSERT, SPLIT_LIMIT>
 where
     DefaultAllocator: core::default::Default,
-- 
2.43.0


From b3dc1ef7fbe1525a79cfbffa3f5a9f87a0b34c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:49 +0000
Subject: [PATCH 40/41] fix: set the capacity of a shared block atomically

---
 stabby-abi/src/alloc/sync.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index d099155..24854fc 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -477,8 +477,10 @@ impl<T, Alloc: IAlloc> Clone for ArcSlice<T, Alloc> {
     }
 }
 impl<T, Alloc: IAlloc> From<Arc<T, Alloc>> for ArcSlice<T, Alloc> {
-    fn from(mut value: Arc<T, Alloc>) -> Self {
-        unsafe { value.ptr.prefix_mut() }.capacity = AtomicUsize::new(1);
+    fn from(value: Arc<T, Alloc>) -> Self {
+        unsafe { value.ptr.prefix() }
+            .capacity
+            .store(1, Ordering::Relaxed);
         let start = Arc::into_raw(value);
         Self {
             inner: AllocSlice {
-- 
2.43.0


From be28cb7efee7cdf16e5016072a69ec3779672047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:22 +0000
Subject: [PATCH 41/41] fix: trait objects over references pass the reference
 on, not its address

---
 stabby-abi/src/fatptr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stabby-abi/src/fatptr.rs b/stabby-abi/src/fatptr.rs
index 2327886..95af170 100644
--- a/stabby-abi/src/fatptr.rs
+++ b/stabby-abi/src/fatptr.rs
@@ -52,17 +52,17 @@ pub trait IPtrClone: IPtrOwned {
 }
 impl<T> IPtr for &T {
     unsafe fn as_ref<U>(&self) -> &U {
-        core::mem::transmute(self)
+        core::mem::transmute::<&T, &U>(*self)
     }
 }
 impl<T> IPtr for &mut T {
     unsafe fn as_ref<U>(&self) -> &U {
-        core::mem::transmute(self)
+        core::mem::transmute::<&T, &U>(&**self)
     }
 }
 impl<T> IPtrMut for &mut T {
     unsafe fn as_mut<U>(&mut self) -> &mut U {
-        core::mem::transmute(self)
+        core::mem::transmute::<&mut T, &mut U>(&mut **self)
     }
 }
 impl<T> IPtrOwned for &mut T {
-- 
2.43.0

