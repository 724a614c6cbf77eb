From c83ef80b86237bcdae4052ef0e4f07dc0ca7ab50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:50 +0000
Subject: [PATCH 01/42] fix: copying and cloning accessors of async
 lock-protected fields await the lock

The accessor was generated as a non-async function dereferencing the future returned by `read()`; any `r#async`
struct with a non-lazy lock or optional field and `get(clone)`/`get(copy)` failed to compile.
---
 fieldx_derive/src/codegen/sync.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fieldx_derive/src/codegen/sync.rs b/fieldx_derive/src/codegen/sync.rs
index 5c5ce7e..7d66166 100644
--- a/fieldx_derive/src/codegen/sync.rs
+++ b/fieldx_derive/src/codegen/sync.rs
@@ -260,12 +260,15 @@ impl FXCodeGenContextual for FXCodeGenSync {
                     ]
                 }
                 else if fctx.needs_lock() {
+                    let implementor = self.implementor(fctx);
+                    let async_decl = implementor.async_decl();
+                    let await_call = implementor.await_call();
                     let ty = self.maybe_optional_ty(fctx, ty);
 
                     quote_spanned![span=>
                         #attributes_fn
-                        #vis_tok fn #accessor_name(&self) -> #ty {
-                            let rlock = self.#ident.read() #shortcut;
+                        #vis_tok #async_decl fn #accessor_name(&self) -> #ty {
+                            let rlock = self.#ident.read() #await_call #shortcut;
                             (*rlock)#cmethod
                         }
                     ]
-- 
2.43.0


From a752cc98fbc814940c9309993aa3fc96fb02b157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:50 +0000
Subject: [PATCH 02/42] fix: mutable accessors of async lock-protected fields
 await the lock

`get_mut` of a non-lazy lock or optional field of an `r#async` struct was generated as a non-async function returning
the future of `write()` where a guard is declared, and failed to compile.
---
 fieldx_derive/src/codegen/sync.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/fieldx_derive/src/codegen/sync.rs b/fieldx_derive/src/codegen/sync.rs
index 7d66166..6514b36 100644
--- a/fieldx_derive/src/codegen/sync.rs
+++ b/fieldx_derive/src/codegen/sync.rs
@@ -346,13 +346,16 @@ impl FXCodeGenContextual for FXCodeGenSync {
                 };
                 if fctx.needs_lock() {
                     let lock_span = fctx.lock_span();
-                    let wrguard = self.implementor(fctx).rwlock_write_guard();
+                    let implementor = self.implementor(fctx);
+                    let async_decl = implementor.async_decl();
+                    let await_call = implementor.await_call();
+                    let wrguard = implementor.rwlock_write_guard();
                     let ty_toks = quote_spanned! [lock_span=> #wrguard<#ty_toks>];
 
                     quote_spanned! [span=>
                         #attributes_fn
-                        #vis_tok fn #accessor_name(&self) -> #ty_toks {
-                            self.#ident.write()
+                        #vis_tok #async_decl fn #accessor_name(&self) -> #ty_toks {
+                            self.#ident.write()#await_call
                         }
                     ]
                 }
-- 
2.43.0


From 037d7708ec72004d9cab397657e93f3548930696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:50 +0000
Subject: [PATCH 03/42] fix: sync mutable accessor takes visibility and
 attributes from get_mut, not from get

The plain code generator already does so.
---
 fieldx_derive/src/codegen/sync.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fieldx_derive/src/codegen/sync.rs b/fieldx_derive/src/codegen/sync.rs
index 6514b36..bbbbe58 100644
--- a/fieldx_derive/src/codegen/sync.rs
+++ b/fieldx_derive/src/codegen/sync.rs
@@ -314,11 +314,11 @@ impl FXCodeGenContextual for FXCodeGenSync {
     fn field_accessor_mut(&self, fctx: &FXFieldCtx) -> darling::Result<TokenStream> {
         Ok(if fctx.needs_accessor_mut() {
             let ident = fctx.ident_tok();
-            let vis_tok = fctx.vis_tok(FXHelperKind::Accessor);
+            let vis_tok = fctx.vis_tok(FXHelperKind::AccessorMut);
             let accessor_name = self.accessor_mut_name(fctx)?;
             let ty = fctx.ty();
-            let attributes_fn = self.attributes_fn(fctx, FXHelperKind::Accessor, FXInlining::Always);
-            let span = self.helper_span(fctx, FXHelperKind::Accessor);
+            let attributes_fn = self.attributes_fn(fctx, FXHelperKind::AccessorMut, FXInlining::Always);
+            let span = self.helper_span(fctx, FXHelperKind::AccessorMut);
             let read_method = self.read_method_name(fctx, true, &span);
 
             if fctx.is_lazy() {
-- 
2.43.0


From bbf7145135d3c8bdd78a1e7ee40911d6b7e410f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:50 +0000
Subject: [PATCH 04/42] fix: clearer of an optional sync field without a lock
 clears the field directly

With struct-level `lock(off)` the optional field is a bare Option, but its clearer called `write()` on it and failed to
compile.
---
 fieldx_derive/src/codegen/sync.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/fieldx_derive/src/codegen/sync.rs b/fieldx_derive/src/codegen/sync.rs
index bbbbe58..a2d7be8 100644
--- a/fieldx_derive/src/codegen/sync.rs
+++ b/fieldx_derive/src/codegen/sync.rs
@@ -591,8 +591,8 @@ impl FXCodeGenContextual for FXCodeGenSync {
                     }
                 ]
             }
-            else {
-                // If not lazy then it's optional
+            // If not lazy then it's optional
+            else if fctx.needs_lock() {
                 quote_spanned![span=>
                     #[inline]
                     #attributes_fn
@@ -601,6 +601,15 @@ impl FXCodeGenContextual for FXCodeGenSync {
                     }
                 ]
             }
+            else {
+                quote_spanned![span=>
+                    #[inline]
+                    #attributes_fn
+                    #vis_tok fn #clear_name(&mut self) -> ::std::option::Option<#ty> {
+                       self.#ident.take()
+                    }
+                ]
+            }
         }
         else {
             TokenStream::new()
-- 
2.43.0


From b668733dad7df69be71fe81e5860605c61ff47b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:50 +0000
Subject: [PATCH 05/42] fix: fallible has no effect on fields that are not lazy

With struct-level `fallible` a non-lazy field was handled as if it had a fallible builder: accessors of lock-protected
fields used `try_read` of the lock and did not compile, those of bare ones were declared to return a `&Result`, and the
predicate of an optional sync field told if the lock could be taken, not if the field is set.
---
 fieldx_derive/src/ctx/field.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/fieldx_derive/src/ctx/field.rs b/fieldx_derive/src/ctx/field.rs
index 9371eb3..33cb734 100644
--- a/fieldx_derive/src/ctx/field.rs
+++ b/fieldx_derive/src/ctx/field.rs
@@ -193,10 +193,13 @@ impl FXFieldCtx {
 
     #[inline]
     pub fn is_fallible(&self) -> bool {
-        self.field
-            .is_fallible()
-            .or_else(|| self.codegen_ctx().args().is_fallible())
-            .unwrap_or(false)
+        // Only a lazy builder can fail.
+        self.is_lazy()
+            && self
+                .field
+                .is_fallible()
+                .or_else(|| self.codegen_ctx().args().is_fallible())
+                .unwrap_or(false)
     }
 
     #[inline]
-- 
2.43.0


From e26076c919ce969368ecaa8c9a0dd8d490262476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:50 +0000
Subject: [PATCH 06/42] fix: inner_mut(off) does not make a field sync

`inner_mut(off)` on a field of a plain struct turned the field and, through mode inference, the whole struct into sync.
---
 fieldx_derive/src/fields.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/src/fields.rs b/fieldx_derive/src/fields.rs
index 8cc5a8c..1e02466 100644
--- a/fieldx_derive/src/fields.rs
+++ b/fieldx_derive/src/fields.rs
@@ -211,7 +211,8 @@ impl FXFieldReceiver {
     }
 
     pub fn is_plain(&self) -> Option<bool> {
-        self.is_inner_mut()
+        // Turning inner mutability off says nothing about the mode.
+        self.is_inner_mut().filter(|is_inner_mut| *is_inner_mut)
     }
 
     pub fn is_sync(&self) -> Option<bool> {
-- 
2.43.0


From 188f2ed74766b83234cf500b547d3503cdf7474c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:28 +0000
Subject: [PATCH 07/42] fix: clone(off) and copy(off) of a field disable the
 mode set by the struct in plain structs too

copy(off) made the accessor of a plain field clone, and clone(off) was ignored. The plain code generator now follows the
same is_copy/is_clone resolution as the sync one.
---
 fieldx_derive/src/ctx/field.rs | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/fieldx_derive/src/ctx/field.rs b/fieldx_derive/src/ctx/field.rs
index 33cb734..a5cad81 100644
--- a/fieldx_derive/src/ctx/field.rs
+++ b/fieldx_derive/src/ctx/field.rs
@@ -267,27 +267,9 @@ impl FXFieldCtx {
     pub fn accessor_mode(&self) -> FXAccessorMode {
         self.field
             .accessor_mode()
-            .or_else(|| {
-                self.field.is_copy().and_then(|is_copy| {
-                    if is_copy {
-                        Some(FXAccessorMode::Copy)
-                    }
-                    else {
-                        Some(FXAccessorMode::Clone)
-                    }
-                })
-            })
+            .or_else(|| self.is_copy().then_some(FXAccessorMode::Copy))
+            .or_else(|| self.is_clone().then_some(FXAccessorMode::Clone))
             .or_else(|| self.codegen_ctx.args().accessor_mode())
-            .or_else(|| {
-                self.codegen_ctx.args().is_copy().and_then(|is_copy| {
-                    if is_copy {
-                        Some(FXAccessorMode::Copy)
-                    }
-                    else {
-                        Some(FXAccessorMode::Clone)
-                    }
-                })
-            })
             .unwrap_or(FXAccessorMode::None)
     }
 
-- 
2.43.0


From 0a86338fc91454313014f77cb51b209a43663005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:10 +0000
Subject: [PATCH 08/42] fix: skipped fields are not required to be Copy

A struct-level `get(copy)` demanded Copy of fields marked with `skip`, including the implicit weak self-reference of
`rc` structs, though no accessor is generated for them.
---
 fieldx_derive/src/codegen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fieldx_derive/src/codegen.rs b/fieldx_derive/src/codegen.rs
index f3eada7..89e5792 100644
--- a/fieldx_derive/src/codegen.rs
+++ b/fieldx_derive/src/codegen.rs
@@ -187,7 +187,7 @@ impl FXRewriter {
     fn prepare_field(&self, fctx: Ref<FXFieldCtx>) -> darling::Result<()> {
         let ctx = self.ctx();
 
-        if fctx.needs_accessor() && fctx.is_copy() {
+        if !fctx.is_skipped() && fctx.needs_accessor() && fctx.is_copy() {
             ctx.add_for_copy_trait_check(&fctx);
         }
 
-- 
2.43.0


From 1e1f8196fad851783bad01a2d657bb2af4bac0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:10 +0000
Subject: [PATCH 09/42] fix: initial values of skipped fields are not wrapped
 in locks or cells

A field marked with `skip` keeps its declared type, but with struct-level `lock`, `reader`, `writer` or `inner_mut` its
default was still wrapped (and with `inner_mut` its type too).
---
 fieldx_derive/src/ctx/field.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/fieldx_derive/src/ctx/field.rs b/fieldx_derive/src/ctx/field.rs
index a5cad81..445d180 100644
--- a/fieldx_derive/src/ctx/field.rs
+++ b/fieldx_derive/src/ctx/field.rs
@@ -76,7 +76,7 @@ impl FXFieldCtx {
         }
     }
 
-    helper_fn_ctx! { is: lazy, inner_mut }
+    helper_fn_ctx! { is: lazy }
 
     helper_fn_ctx! { needs: accessor_mut, setter, writer }
 
@@ -149,10 +149,22 @@ impl FXFieldCtx {
 
     #[inline]
     pub fn needs_lock(&self) -> bool {
-        self.field
-            .needs_lock()
-            .or_else(|| self.codegen_ctx().args().needs_lock())
-            .unwrap_or_else(|| self.needs_reader() || self.needs_writer() || self.is_optional())
+        !self.is_skipped()
+            && self
+                .field
+                .needs_lock()
+                .or_else(|| self.codegen_ctx().args().needs_lock())
+                .unwrap_or_else(|| self.needs_reader() || self.needs_writer() || self.is_optional())
+    }
+
+    #[inline]
+    pub fn is_inner_mut(&self) -> bool {
+        !self.is_skipped()
+            && self
+                .field
+                .is_inner_mut()
+                .or_else(|| self.codegen_ctx().args().is_inner_mut())
+                .unwrap_or(false)
     }
 
     #[cfg(feature = "serde")]
-- 
2.43.0


From a6c3c360c72f5d7aa156bbff5e69f946ff25736f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:10 +0000
Subject: [PATCH 10/42] fix: builder initializes skipped fields

The object constructed by `build()` lacked the fields marked with `skip`, making any struct with both a builder and a
skipped field fail to compile.
---
 fieldx_derive/src/codegen.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/fieldx_derive/src/codegen.rs b/fieldx_derive/src/codegen.rs
index 89e5792..06d3c69 100644
--- a/fieldx_derive/src/codegen.rs
+++ b/fieldx_derive/src/codegen.rs
@@ -372,6 +372,23 @@ impl FXRewriter {
             }
         }
 
+        // Skipped fields have no place in the builder but still have to be initialized. The weak self-reference is taken
+        // care of separately.
+        for field in ctx.all_fields() {
+            let Ok(fctx) = ctx.field_ctx(field)
+            else {
+                continue;
+            };
+            if fctx.is_skipped() && ctx.myself_field().as_ref() != Some(fctx.ident()) {
+                let ident = fctx.ident();
+                let default = ctx.ok_or_empty(
+                    self.field_codegen(&fctx)
+                        .and_then(|fgen| fgen.field_default_wrap(&fctx)),
+                );
+                field_setters.push(quote![ #ident: #default ]);
+            }
+        }
+
         let default_initializer = if use_default && ctx.needs_default() {
             quote![..::std::default::Default::default()]
         }
-- 
2.43.0


From 8ebae758d68290efd628531966f93cb8ffeb7510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:10 +0000
Subject: [PATCH 11/42] fix: Self in default values of sync fields refers to
 the struct when used by the builder

As it already does for plain fields.
---
 fieldx_derive/src/codegen/sync.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fieldx_derive/src/codegen/sync.rs b/fieldx_derive/src/codegen/sync.rs
index a2d7be8..ceee099 100644
--- a/fieldx_derive/src/codegen/sync.rs
+++ b/fieldx_derive/src/codegen/sync.rs
@@ -401,7 +401,7 @@ impl FXCodeGenContextual for FXCodeGenSync {
         };
 
         Ok(if !fctx.forced_builder() && !fctx.needs_builder() {
-            let default = self.field_value_wrap(fctx, default)?;
+            let default = self.field_default_wrap(fctx)?;
             quote_spanned![span=> #field_ident: #default]
         }
         else if fctx.is_lazy() {
@@ -705,6 +705,6 @@ impl FXCodeGenContextual for FXCodeGenSync {
     }
 
     fn field_default_wrap(&self, fctx: &FXFieldCtx) -> darling::Result<TokenStream> {
-        self.field_value_wrap(fctx, self.field_default_value(fctx))
+        self.field_value_wrap(fctx, self.field_default_value(fctx).map(|dv| self.fixup_self_type(dv)))
     }
 }
-- 
2.43.0


From 11a31dc3c763ef20102f91a382b4e0dfd3b519e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:13 +0000
Subject: [PATCH 12/42] fix: as_ref accessor of an optional sync field without
 a lock returns Option of a reference

As documented, and as plain structs do.
---
 fieldx_derive/src/codegen/sync.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/fieldx_derive/src/codegen/sync.rs b/fieldx_derive/src/codegen/sync.rs
index ceee099..a2415e6 100644
--- a/fieldx_derive/src/codegen/sync.rs
+++ b/fieldx_derive/src/codegen/sync.rs
@@ -4,6 +4,7 @@ mod impl_sync;
 #[cfg(feature = "serde")]
 use crate::codegen::serde::FXCGenSerde;
 use crate::codegen::{FXCodeGenContextual, FXCodeGenCtx, FXFieldCtx, FXHelperKind, FXInlining, FXValueRepr};
+use fieldx_aux::FXAccessorMode;
 use proc_macro2::{Span, TokenStream};
 use quote::{format_ident, quote, quote_spanned, ToTokens};
 use std::rc::Rc;
@@ -295,6 +296,14 @@ impl FXCodeGenContextual for FXCodeGenSync {
             else if is_lazy || fctx.needs_lock() {
                 self.field_reader_method(fctx, FXHelperKind::Accessor)?
             }
+            else if is_optional && fctx.accessor_mode() == FXAccessorMode::AsRef {
+                quote_spanned![span=>
+                    #attributes_fn
+                    #vis_tok fn #accessor_name(&self) -> ::std::option::Option<&#ty> {
+                        self.#ident.as_ref()
+                    }
+                ]
+            }
             else {
                 let ty = self.fallible_return_type(fctx, &self.maybe_optional_ty(fctx, ty))?;
 
-- 
2.43.0


From af8a77cc02a851f2d0538ec3d905222fc55edf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:45 +0000
Subject: [PATCH 13/42] fix: as_ref accessor of an interior-mutable optional
 field

It generated code that does not compile; return the option of a borrow of the value.
---
 fieldx_derive/src/codegen/plain.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/src/codegen/plain.rs b/fieldx_derive/src/codegen/plain.rs
index bc78fc2..e156de6 100644
--- a/fieldx_derive/src/codegen/plain.rs
+++ b/fieldx_derive/src/codegen/plain.rs
@@ -112,7 +112,22 @@ impl FXCodeGenContextual for FXCodeGenPlain {
 
                 ty_tok = self.maybe_optional(fctx, quote_spanned![span=> #ty_ref #ty_tok]);
 
-                if fctx.is_inner_mut() {
+                if fctx.is_inner_mut() && fctx.accessor_mode() == FXAccessorMode::AsRef {
+                    let ty_tok = fctx.ty_tok();
+                    let inner_mut_span = fctx.inner_mut_span();
+                    let ret_ty = self.maybe_optional(
+                        fctx,
+                        quote_spanned![inner_mut_span=> ::fieldx::Ref<'fx_reader_lifetime, #ty_tok>],
+                    );
+
+                    quote_spanned![span=>
+                        #attributes_fn
+                        #vis_tok fn #accessor_name<'fx_reader_lifetime>(&'fx_reader_lifetime self) -> #ret_ty {
+                            ::fieldx::Ref::filter_map(self.#ident.borrow(), |value| value.as_ref()).ok()
+                        }
+                    ]
+                }
+                else if fctx.is_inner_mut() {
                     let inner_mut_span = fctx.inner_mut_span();
                     let (deref, ty_tok) = if fctx.is_clone() || fctx.is_copy() {
                         (quote![*], quote_spanned![inner_mut_span=> #ty_tok])
-- 
2.43.0


From b1a916847939dcdc8fa38252b6ed1fb309d2f4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:37 +0000
Subject: [PATCH 14/42] fix: comparing a container with itself does not lock it
 twice

A recursive shared lock blocks for good when a writer queues between the two acquisitions.
---
 fieldx/src/async/fxlock.rs | 4 ++++
 fieldx/src/sync/fxlock.rs  | 4 ++++
 fieldx/src/sync/fxproxy.rs | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/fieldx/src/async/fxlock.rs b/fieldx/src/async/fxlock.rs
index 1321bba..425a6d6 100644
--- a/fieldx/src/async/fxlock.rs
+++ b/fieldx/src/async/fxlock.rs
@@ -36,6 +36,10 @@ where
 {
     fn eq(&self, other: &Self) -> bool {
         let myguard = self.0.blocking_read();
+        // Never lock the same container twice: that would block for good if a writer has queued in between.
+        if std::ptr::eq(self, other) {
+            return myguard.eq(&myguard);
+        }
         let otherguard = other.0.blocking_read();
 
         myguard.eq(&otherguard)
diff --git a/fieldx/src/sync/fxlock.rs b/fieldx/src/sync/fxlock.rs
index d7bf6e5..bc3c7a1 100644
--- a/fieldx/src/sync/fxlock.rs
+++ b/fieldx/src/sync/fxlock.rs
@@ -26,6 +26,10 @@ where
 {
     fn eq(&self, other: &Self) -> bool {
         let myguard = self.0.read();
+        // Never lock the same container twice: that would block for good if a writer has queued in between.
+        if std::ptr::eq(self, other) {
+            return myguard.eq(&myguard);
+        }
         let otherguard = other.0.read();
 
         myguard.eq(&otherguard)
diff --git a/fieldx/src/sync/fxproxy.rs b/fieldx/src/sync/fxproxy.rs
index 4764596..cc16041 100644
--- a/fieldx/src/sync/fxproxy.rs
+++ b/fieldx/src/sync/fxproxy.rs
@@ -263,6 +263,10 @@ where
 {
     fn eq(&self, other: &Self) -> bool {
         let myguard = self.value.read();
+        // Never lock the same container twice: that would block for good if a writer has queued in between.
+        if std::ptr::eq(self, other) {
+            return myguard.eq(&myguard);
+        }
         let otherguard = other.value.read();
         myguard.eq(&otherguard)
     }
-- 
2.43.0


From 7c37b9dfe5fae862a999bff4ef3e501f731f187c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:43 +0000
Subject: [PATCH 15/42] fix: mode(async) of a field makes it async, not plain

---
 fieldx_derive/src/fields.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/src/fields.rs b/fieldx_derive/src/fields.rs
index 1e02466..baf497b 100644
--- a/fieldx_derive/src/fields.rs
+++ b/fieldx_derive/src/fields.rs
@@ -219,7 +219,8 @@ impl FXFieldReceiver {
         self.mode_sync
             .as_ref()
             .map(|th| th.is_true())
-            .or_else(|| self.mode.as_ref().map(|m| m.is_sync()))
+            // Any explicit mode other than plain requires locking.
+            .or_else(|| self.mode.as_ref().map(|m| m.is_sync() || m.is_async()))
             .or_else(|| self.is_async())
             .or_else(|| self.lock().as_ref().map(|th| th.is_true()))
             .or_else(|| self.is_plain().map(|b| !b))
-- 
2.43.0


From d4d4025c687882170599006633522fd89ba69756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:51 +0000
Subject: [PATCH 16/42] fix: sync field of an async struct is sync

---
 fieldx_derive/src/fields.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fieldx_derive/src/fields.rs b/fieldx_derive/src/fields.rs
index baf497b..6e8f214 100644
--- a/fieldx_derive/src/fields.rs
+++ b/fieldx_derive/src/fields.rs
@@ -208,6 +208,8 @@ impl FXFieldReceiver {
             .as_ref()
             .map(|th| th.is_true())
             .or_else(|| self.mode.as_ref().map(|m| m.is_async()))
+            // Explicit `sync` overrides async mode of the struct.
+            .or_else(|| self.mode_sync.is_true_opt().filter(|is_sync| *is_sync).map(|_| false))
     }
 
     pub fn is_plain(&self) -> Option<bool> {
-- 
2.43.0


From 966dd5779dc31d93b671d857190e693ad4374312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:19 +0000
Subject: [PATCH 17/42] fix: a struct is sync if any of its fields is, not only
 the first one with explicit mode

---
 fieldx_derive/src/ctx/codegen.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/fieldx_derive/src/ctx/codegen.rs b/fieldx_derive/src/ctx/codegen.rs
index 8edbd32..f62ae88 100644
--- a/fieldx_derive/src/ctx/codegen.rs
+++ b/fieldx_derive/src/ctx/codegen.rs
@@ -437,14 +437,7 @@ impl FXCodeGenCtx {
     pub fn is_rather_sync(&self) -> bool {
         *self.is_rather_sync.borrow_mut().get_or_init(|| {
             self.args.is_sync().map_or_else(
-                || {
-                    for field in self.all_fields() {
-                        if let Some(is_sync) = field.is_sync() {
-                            return is_sync;
-                        }
-                    }
-                    false
-                },
+                || self.all_fields().iter().any(|field| field.is_sync().unwrap_or(false)),
                 |is_sync| is_sync,
             )
         })
-- 
2.43.0


From 69314716789dd1854824af4be9938c3d2ef68d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:55 +0000
Subject: [PATCH 18/42] fix: lazy fields of a struct with optional by default
 are not optional

---
 fieldx_derive/src/ctx/field.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/src/ctx/field.rs b/fieldx_derive/src/ctx/field.rs
index 445d180..c4df334 100644
--- a/fieldx_derive/src/ctx/field.rs
+++ b/fieldx_derive/src/ctx/field.rs
@@ -255,12 +255,14 @@ impl FXFieldCtx {
     }
 
     pub fn is_optional(&self) -> bool {
+        // A lazy field is never optional, even if the struct makes its fields optional by default.
         !self.is_skipped()
+            && !self.is_lazy()
             && self
                 .field
                 .is_optional()
                 .or_else(|| self.codegen_ctx.args().is_optional())
-                .unwrap_or_else(|| (!self.is_lazy() && (self.needs_clearer() || self.needs_predicate())))
+                .unwrap_or_else(|| self.needs_clearer() || self.needs_predicate())
     }
 
     pub fn is_builder_required(&self) -> bool {
-- 
2.43.0


From cf66111f7924a7dfd8640abddee44583688fa342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:55 +0000
Subject: [PATCH 19/42] fix: fields without a builder setter are never required
 by build()

---
 fieldx_derive/src/codegen/codegen_trait.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fieldx_derive/src/codegen/codegen_trait.rs b/fieldx_derive/src/codegen/codegen_trait.rs
index 9194a18..7354165 100644
--- a/fieldx_derive/src/codegen/codegen_trait.rs
+++ b/fieldx_derive/src/codegen/codegen_trait.rs
@@ -394,8 +394,10 @@ pub trait FXCodeGenContextual {
     }
 
     fn field_builder_value_required(&self, fctx: &FXFieldCtx) {
-        if fctx.is_builder_required()
-            || (fctx.needs_builder() && !(fctx.is_lazy() || fctx.is_optional() || fctx.has_default_value()))
+        // A field that has no setter in the builder can't be required from the builder's user.
+        if (fctx.forced_builder() || fctx.needs_builder())
+            && (fctx.is_builder_required()
+                || !(fctx.is_lazy() || fctx.is_optional() || fctx.has_default_value()))
         {
             let field_ident = fctx.ident();
             let field_name = field_ident.to_string();
-- 
2.43.0


From 68af96c87b1982cbce9ed7facc8eb85f7a719e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:55 +0000
Subject: [PATCH 20/42] fix: bare default of a sync lazy or optional field
 doesn't panic the macro

---
 fieldx_derive/src/codegen/sync.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fieldx_derive/src/codegen/sync.rs b/fieldx_derive/src/codegen/sync.rs
index a2415e6..a2683ff 100644
--- a/fieldx_derive/src/codegen/sync.rs
+++ b/fieldx_derive/src/codegen/sync.rs
@@ -392,7 +392,7 @@ impl FXCodeGenContextual for FXCodeGenSync {
         let is_lazy = fctx.is_lazy();
         let default = self.field_default_value(fctx);
         let lazy_builder = self.implementor(fctx).lazy_builder(self, fctx)?;
-        let or_default = if fctx.has_default_value() {
+        let or_default = if fctx.default_value().is_some() {
             let default = self.fixup_self_type(default.clone().expect(&format!(
                 "Internal problem: expected default value for field {}",
                 fctx.ident_str()
-- 
2.43.0


From 675c00fd20ef8c616d2f461af899a7dc3022841d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:02 +0000
Subject: [PATCH 21/42] fix: fallible post_build of a reference-counted struct

---
 fieldx_derive/src/codegen/codegen_trait.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/fieldx_derive/src/codegen/codegen_trait.rs b/fieldx_derive/src/codegen/codegen_trait.rs
index 7354165..561c66b 100644
--- a/fieldx_derive/src/codegen/codegen_trait.rs
+++ b/fieldx_derive/src/codegen/codegen_trait.rs
@@ -237,6 +237,7 @@ pub trait FXCodeGenContextual {
     ) -> TokenStream {
         let ctx = self.ctx();
         let args = ctx.args();
+        let is_fallible = init.is_some() && ctx.build_has_error_type();
         let post_constuct = if let Some(init) = init {
             let shortcut = if ctx.build_has_error_type() {
                 quote![?]
@@ -253,6 +254,24 @@ pub trait FXCodeGenContextual {
         if args.is_ref_counted() {
             let (rc_type, _) = self.ref_count_types();
             let myself_field = ctx.myself_field();
+            if is_fallible {
+                // There is no way to return an error from within the `new_cyclic` closure.
+                return quote![
+                    {
+                        let mut this = #self_name {
+                            #myself_field: ::std::default::Default::default(),
+                            #struct_init
+                        }
+                        #post_constuct;
+                        #rc_type::new_cyclic(
+                            move |me| {
+                                this.#myself_field = me.clone();
+                                this
+                            }
+                        )
+                    }
+                ];
+            }
             quote![
                 #rc_type::new_cyclic(
                     |me| {
-- 
2.43.0


From d5d8d5b0aa28667ccbe9fd7ade4e41c11fa48a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:30 +0000
Subject: [PATCH 22/42] fix: lazy fields of a struct with inner_mut by default
 are not inner mutable

---
 fieldx_derive/src/ctx/field.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fieldx_derive/src/ctx/field.rs b/fieldx_derive/src/ctx/field.rs
index c4df334..1404303 100644
--- a/fieldx_derive/src/ctx/field.rs
+++ b/fieldx_derive/src/ctx/field.rs
@@ -159,7 +159,9 @@ impl FXFieldCtx {
 
     #[inline]
     pub fn is_inner_mut(&self) -> bool {
+        // A lazy field is never inner mutable, even if the struct makes its fields so by default.
         !self.is_skipped()
+            && !self.is_lazy()
             && self
                 .field
                 .is_inner_mut()
-- 
2.43.0


From a3fee9f01951045c32deb50b0105a6dd6a98e936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:50 +0000
Subject: [PATCH 23/42] fix: clone(off) and copy(off) of a field also disable
 get(clone) and get(copy) of the struct

---
 fieldx_derive/src/ctx/field.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/src/ctx/field.rs b/fieldx_derive/src/ctx/field.rs
index 1404303..fd157d9 100644
--- a/fieldx_derive/src/ctx/field.rs
+++ b/fieldx_derive/src/ctx/field.rs
@@ -285,7 +285,13 @@ impl FXFieldCtx {
             .accessor_mode()
             .or_else(|| self.is_copy().then_some(FXAccessorMode::Copy))
             .or_else(|| self.is_clone().then_some(FXAccessorMode::Clone))
-            .or_else(|| self.codegen_ctx.args().accessor_mode())
+            .or_else(|| {
+                // Copying and cloning set by the struct are already considered, unless the field turned them off.
+                self.codegen_ctx
+                    .args()
+                    .accessor_mode()
+                    .filter(|m| !matches!(m, FXAccessorMode::Copy | FXAccessorMode::Clone))
+            })
             .unwrap_or(FXAccessorMode::None)
     }
 
-- 
2.43.0


From 81c191f21168eecec0908c32cce8fd345934a3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:47 +0000
Subject: [PATCH 24/42] fix: serialization of an optional sync field without a
 lock

---
 fieldx_derive/src/codegen/sync.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/src/codegen/sync.rs b/fieldx_derive/src/codegen/sync.rs
index a2683ff..656f898 100644
--- a/fieldx_derive/src/codegen/sync.rs
+++ b/fieldx_derive/src/codegen/sync.rs
@@ -460,7 +460,8 @@ impl FXCodeGenContextual for FXCodeGenSync {
     fn field_from_struct(&self, fctx: &FXFieldCtx) -> darling::Result<TokenStream> {
         let field_ident = fctx.ident_tok();
         let me_var = self.ctx().me_var_ident();
-        Ok(if self.is_serde_optional(fctx) || fctx.needs_lock() {
+        // An optional field with `lock(off)` is a bare Option.
+        Ok(if fctx.is_lazy() || fctx.needs_lock() {
             quote![ #me_var.#field_ident.into_inner() ]
         }
         else {
-- 
2.43.0


From 9eb6aa0fc2c081800edd9b7f0fb11480a0fdc190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:47 +0000
Subject: [PATCH 25/42] fix: fields with serialize(off) do not break
 serialization of the struct

---
 fieldx_derive/src/codegen/serde.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/fieldx_derive/src/codegen/serde.rs b/fieldx_derive/src/codegen/serde.rs
index a95f6b5..6a501f3 100644
--- a/fieldx_derive/src/codegen/serde.rs
+++ b/fieldx_derive/src/codegen/serde.rs
@@ -403,15 +403,17 @@ impl FXRewriteSerde for super::FXRewriter {
             for field in ctx.all_fields() {
                 let fctx = ctx.field_ctx(field);
                 if let Ok(fctx) = fctx {
-                    if fctx.is_serde() && fctx.needs_serialize() {
+                    if fctx.is_serde() {
                         let field_ident = fctx.ident_tok();
-                        let is_lazy = fctx.is_lazy();
+                        // A field that is not serialized is still a part of the shadow struct, but there is no point in
+                        // initializing it.
+                        let needs_init = fctx.is_lazy() && fctx.needs_serialize();
 
                         ctx.exec_or_record(|| {
                             let cgen = self.field_codegen(&fctx)?;
                             let fetch_struct_field = cgen.field_from_struct(&fctx)?;
 
-                            if is_lazy {
+                            if needs_init {
                                 let init_call = cgen.field_lazy_initializer(&fctx, Some(quote![(&#me_var)]))?;
                                 lazy_inits.push(quote![ let _ = #init_call; ]);
                             }
-- 
2.43.0


From 75a0bd67b78c54221aeae0974f5cc87ff79eb540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:47 +0000
Subject: [PATCH 26/42] fix: deserialization of a struct without Default and
 with fields that are not deserialized

---
 fieldx_derive/src/codegen/serde.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/fieldx_derive/src/codegen/serde.rs b/fieldx_derive/src/codegen/serde.rs
index 6a501f3..c7b5b77 100644
--- a/fieldx_derive/src/codegen/serde.rs
+++ b/fieldx_derive/src/codegen/serde.rs
@@ -362,6 +362,18 @@ impl FXRewriteSerde for super::FXRewriter {
                             Ok(())
                         });
                     }
+                    else if !ctx.needs_default() {
+                        // There is no `Default` implementation to take the value from.
+                        ctx.exec_or_record(|| {
+                            let cgen = self.field_codegen(&fctx)?;
+                            let field_ident = fctx.ident_tok();
+                            let default_value = cgen.field_default_wrap(&fctx)?;
+                            fields.push(quote_spanned![*fctx.span()=>
+                                #field_ident: #default_value
+                            ]);
+                            Ok(())
+                        });
+                    }
                 }
                 else {
                     ctx.push_error(fctx.unwrap_err())
-- 
2.43.0


From a2e1e679d4922bcdb3c74e3bad37f0a0ed600fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:47 +0000
Subject: [PATCH 27/42] fix: struct-level attributes are for the shadow struct,
 not for its fields

---
 fieldx_derive/src/codegen/serde.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/fieldx_derive/src/codegen/serde.rs b/fieldx_derive/src/codegen/serde.rs
index c7b5b77..dd6643d 100644
--- a/fieldx_derive/src/codegen/serde.rs
+++ b/fieldx_derive/src/codegen/serde.rs
@@ -144,8 +144,7 @@ pub trait FXCGenSerde: FXCodeGenContextual {
         let user_attrs = fctx
             .serde()
             .as_ref()
-            .and_then(|serde_helper| serde_helper.attributes().as_ref())
-            .or_else(|| self.ctx().args().attributes().as_ref());
+            .and_then(|serde_helper| serde_helper.attributes().as_ref());
         let ty = self.serde_shadow_field_type(fctx);
 
         self.ctx().add_shadow_field_decl(quote_spanned! [*fctx.span()=>
@@ -298,7 +297,7 @@ impl FXRewriteSerde for super::FXRewriter {
             let generics = ctx.input().generics();
             let where_clause = &generics.where_clause;
             let vis = serde_helper.public_mode().map(|pm| pm.to_token_stream());
-            let user_attributes = serde_helper.attributes();
+            let user_attributes = serde_helper.attributes().as_ref().or_else(|| args.attributes().as_ref());
 
             attrs.push(derive_attr);
 
-- 
2.43.0


From dc09ef2f5c8037c8f4aa787338809b9bc6214dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:47 +0000
Subject: [PATCH 28/42] fix: string literal of a field-level serde argument is
 the serialization name

---
 fieldx_derive/src/codegen/serde.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/src/codegen/serde.rs b/fieldx_derive/src/codegen/serde.rs
index dd6643d..8b3b1a2 100644
--- a/fieldx_derive/src/codegen/serde.rs
+++ b/fieldx_derive/src/codegen/serde.rs
@@ -99,7 +99,13 @@ pub trait FXCGenSerde: FXCodeGenContextual {
                 serde_attr_args.push(default_arg);
             }
 
-            if let Some(base_name) = fctx.base_name() {
+            // The name given to the `serde` argument wins over the alternative name of the field.
+            let serde_name = fctx.serde().as_ref().and_then(|serde_helper| serde_helper.shadow_name());
+
+            if let Some(serde_name) = serde_name {
+                serde_attr_args.push(quote![rename = #serde_name]);
+            }
+            else if let Some(base_name) = fctx.base_name() {
                 let span = base_name.span();
                 let base_name = base_name.to_string();
                 serde_attr_args.push(quote_spanned![span=> rename = #base_name]);
-- 
2.43.0


From adbb99b85b1b178b148f04e16a23a1fec26fde1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:47 +0000
Subject: [PATCH 29/42] fix: serde support for generic structs with inline
 bounds

---
 fieldx_derive/src/codegen/serde.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/fieldx_derive/src/codegen/serde.rs b/fieldx_derive/src/codegen/serde.rs
index 8b3b1a2..a0beda6 100644
--- a/fieldx_derive/src/codegen/serde.rs
+++ b/fieldx_derive/src/codegen/serde.rs
@@ -263,8 +263,8 @@ impl FXRewriteSerde for super::FXRewriter {
             let mut serde_args: Vec<TokenStream> = vec![];
 
             let serde_helper = args.serde().as_ref().unwrap();
-            let generics = ctx.input().generics();
-            let shadow_ident = format!("{}{}", ctx.shadow_ident(), generics.to_token_stream());
+            let (_, type_generics, _) = ctx.input().generics().split_for_impl();
+            let shadow_ident = format!("{}{}", ctx.shadow_ident(), type_generics.to_token_stream());
             let serde_span = args.serde_helper_span().unwrap_or_else(|| Span::call_site());
 
             if serde_helper.needs_deserialize().unwrap_or(true) {
@@ -301,7 +301,7 @@ impl FXRewriteSerde for super::FXRewriter {
             let mut attrs = vec![];
             let derive_attr = crate::util::derive_toks(&self.serde_derive_traits());
             let generics = ctx.input().generics();
-            let where_clause = &generics.where_clause;
+            let (impl_generics, type_generics, where_clause) = generics.split_for_impl();
             let vis = serde_helper.public_mode().map(|pm| pm.to_token_stream());
             let user_attributes = serde_helper.attributes().as_ref().or_else(|| args.attributes().as_ref());
 
@@ -314,7 +314,7 @@ impl FXRewriteSerde for super::FXRewriter {
             let default_impl = if ctx.needs_default() {
                 let shadow_defaults = ctx.shadow_defaults();
                 quote_spanned! {span=>
-                    impl #generics ::std::default::Default for #shadow_ident #generics #where_clause {
+                    impl #impl_generics ::std::default::Default for #shadow_ident #type_generics #where_clause {
                         fn default() -> Self {
                             Self {
                                 #( #shadow_defaults ),*
@@ -349,8 +349,7 @@ impl FXRewriteSerde for super::FXRewriter {
             let struct_ident = ctx.input_ident();
             let shadow_var = ctx.shadow_var_ident();
             let mut fields = vec![];
-            let generics = ctx.input().generics();
-            let where_clause = &generics.where_clause;
+            let (impl_generics, type_generics, where_clause) = ctx.input().generics().split_for_impl();
             let span = args.serde_helper_span().unwrap_or_else(|| Span::call_site());
 
             for field in ctx.all_fields() {
@@ -393,8 +392,8 @@ impl FXRewriteSerde for super::FXRewriter {
             };
 
             ctx.tokens_extend(quote_spanned![span=>
-                impl #generics ::std::convert::From<#shadow_ident #generics> for #struct_ident #generics #where_clause {
-                    fn from(#shadow_var: #shadow_ident #generics) -> Self {
+                impl #impl_generics ::std::convert::From<#shadow_ident #type_generics> for #struct_ident #type_generics #where_clause {
+                    fn from(#shadow_var: #shadow_ident #type_generics) -> Self {
                         Self {
                             #( #fields, )*
                             #init_from_default
@@ -414,8 +413,7 @@ impl FXRewriteSerde for super::FXRewriter {
             let mut fields = vec![];
             let mut lazy_inits = vec![];
             let me_var = ctx.me_var_ident();
-            let generics = ctx.input().generics();
-            let where_clause = &generics.where_clause;
+            let (impl_generics, type_generics, where_clause) = ctx.input().generics().split_for_impl();
 
             for field in ctx.all_fields() {
                 let fctx = ctx.field_ctx(field);
@@ -447,8 +445,8 @@ impl FXRewriteSerde for super::FXRewriter {
             }
 
             ctx.tokens_extend(quote![
-                impl #generics ::std::convert::From<#struct_ident #generics> for #shadow_ident #generics #where_clause {
-                    fn from(mut #me_var: #struct_ident #generics) -> Self {
+                impl #impl_generics ::std::convert::From<#struct_ident #type_generics> for #shadow_ident #type_generics #where_clause {
+                    fn from(mut #me_var: #struct_ident #type_generics) -> Self {
                         #( #lazy_inits )*
                         Self {
                             #( #fields, )*
@@ -530,12 +528,12 @@ impl FXRewriteSerde for super::FXRewriter {
                     quote_spanned![default_span=> #default_code]
                 };
 
-                let generics = ctx.input().generics();
+                let (_, type_generics, _) = ctx.input().generics().split_for_impl();
                 let shadow_ident = ctx.shadow_ident();
                 let fn_ident = ctx.unique_ident_pfx(&format!("{}_default", shadow_ident.to_string()));
                 ctx.add_method_decl(quote_spanned![default_span=>
                     #[allow(non_snake_case)]
-                    fn #fn_ident() -> #shadow_ident #generics {
+                    fn #fn_ident() -> #shadow_ident #type_generics {
                         #serde_default.into()
                     }
                 ]);
-- 
2.43.0


From 141ced17777c0cdb91d0b4c394b74c55a0c89064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:47 +0000
Subject: [PATCH 30/42] fix: Self in default values of generic structs with
 inline bounds

---
 fieldx_derive/src/codegen/codegen_trait.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fieldx_derive/src/codegen/codegen_trait.rs b/fieldx_derive/src/codegen/codegen_trait.rs
index 561c66b..2750af9 100644
--- a/fieldx_derive/src/codegen/codegen_trait.rs
+++ b/fieldx_derive/src/codegen/codegen_trait.rs
@@ -503,13 +503,13 @@ pub trait FXCodeGenContextual {
         let span = tokens.span();
         let mut fixed_tokens = TokenStream::new();
         let struct_ident = ctx.input_ident();
-        let generics = ctx.input().generics();
+        let (_, type_generics, _) = ctx.input().generics().split_for_impl();
 
         for t in tokens.into_iter() {
             match t {
                 TokenTree::Ident(ref ident) => {
                     if ident.to_string() == "Self" {
-                        fixed_tokens.extend(quote_spanned![span=> <#struct_ident #generics>]);
+                        fixed_tokens.extend(quote_spanned![span=> <#struct_ident #type_generics>]);
                     }
                     else {
                         fixed_tokens.extend(t.to_token_stream());
-- 
2.43.0


From c70f25d710fabfdf4e2d56cc8dffdead75d2d6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:04 +0000
Subject: [PATCH 31/42] fix: builder of generic structs that are
 reference-counted or have parameter defaults

---
 fieldx_derive/src/codegen.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/fieldx_derive/src/codegen.rs b/fieldx_derive/src/codegen.rs
index 06d3c69..761eed1 100644
--- a/fieldx_derive/src/codegen.rs
+++ b/fieldx_derive/src/codegen.rs
@@ -330,9 +330,7 @@ impl FXRewriter {
         let builder_ident = ctx.builder_ident();
         let builders = ctx.builders_combined();
         let input_ident = ctx.input_ident();
-        let generics = ctx.input().generics();
-        let where_clause = &generics.where_clause;
-        let generic_params = ctx.struct_generic_params();
+        let (impl_generics, generic_params, where_clause) = ctx.input().generics().split_for_impl();
         let attributes = ctx.args().builder_impl_attributes();
         let post_build_ident = ctx.builder_post_build_ident();
 
@@ -425,7 +423,7 @@ impl FXRewriter {
 
         quote![
             #attributes
-            impl #generics #builder_ident #generic_params
+            impl #impl_generics #builder_ident #generic_params
             #where_clause
             {
                 #fn_new
@@ -457,7 +455,8 @@ impl FXRewriter {
                 let (_, weak_type) = cgen.ref_count_types();
                 let mf = ctx.myself_field();
                 let input_ident = ctx.input_ident();
-                quote![#mf: #weak_type<#input_ident #generics>,]
+                let generic_params = ctx.struct_generic_params();
+                quote![#mf: #weak_type<#input_ident #generic_params>,]
             }
             else {
                 quote![]
-- 
2.43.0


From 93a0d5546a06c3ce75ec48981e36c5774a0f4a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:34 +0000
Subject: [PATCH 32/42] fix: builder of generic structs with parameters only
 used by skipped fields

---
 fieldx_derive/src/codegen.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/fieldx_derive/src/codegen.rs b/fieldx_derive/src/codegen.rs
index 761eed1..8975f97 100644
--- a/fieldx_derive/src/codegen.rs
+++ b/fieldx_derive/src/codegen.rs
@@ -341,6 +341,9 @@ impl FXRewriter {
         if let Some(myself_field) = ctx.myself_field() {
             fields_new.push(quote! { #myself_field: ::std::default::Default::default() });
         }
+        if !self.builder_phantom().is_empty() {
+            fields_new.push(quote! { __fieldx_phantom: ::std::marker::PhantomData });
+        }
         for fctx in self.builder_field_ctxs() {
             if let Ok(fctx) = fctx {
                 let ident = fctx.ident();
@@ -436,6 +439,25 @@ impl FXRewriter {
         ]
     }
 
+    // Skipped fields have no place in the builder but they may be the only ones using some of generic parameters.
+    fn builder_phantom(&self) -> TokenStream {
+        let ctx = self.ctx();
+        if ctx.input().generics().params.is_empty() {
+            return quote![];
+        }
+        let skipped: Vec<TokenStream> = ctx
+            .all_fields()
+            .into_iter()
+            .filter_map(|field| ctx.field_ctx(field).ok())
+            .filter(|fctx| fctx.is_skipped() && ctx.myself_field().as_ref() != Some(fctx.ident()))
+            .map(|fctx| fctx.ty().to_token_stream())
+            .collect();
+        if skipped.is_empty() {
+            return quote![];
+        }
+        quote![__fieldx_phantom: ::std::marker::PhantomData<fn() -> ( #( #skipped, )* )>,]
+    }
+
     fn builder_struct(&self) -> TokenStream {
         let ctx = self.ctx();
 
@@ -444,6 +466,7 @@ impl FXRewriter {
             let cgen = self.struct_codegen();
             let builder_fields = ctx.builder_fields_combined();
             let builder_impl = self.builder_impl();
+            let builder_phantom = self.builder_phantom();
             let generics = ctx.input().generics();
             let where_clause = &generics.where_clause;
             let span = ctx.helper_span(FXHelperKind::Builder);
@@ -469,6 +492,7 @@ impl FXRewriter {
                 #where_clause
                 {
                     #myself_field
+                    #builder_phantom
                     #builder_fields
                 }
 
-- 
2.43.0


From 2b62ac6848098380b4fd6ac4044d3b9039792612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:17 +0000
Subject: [PATCH 33/42] fix: Default and new() of a struct with no fields

---
 fieldx_derive/src/codegen.rs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/fieldx_derive/src/codegen.rs b/fieldx_derive/src/codegen.rs
index 8975f97..3f3c57b 100644
--- a/fieldx_derive/src/codegen.rs
+++ b/fieldx_derive/src/codegen.rs
@@ -290,19 +290,14 @@ impl FXRewriter {
         let ident = ctx.input().ident();
         let (impl_generics, type_generics, where_clause) = ctx.input().generics().split_for_impl();
 
-        if !defaults.is_empty() {
-            quote! [
-                impl #impl_generics Default for #ident #type_generics #where_clause {
-                    fn default() -> Self {
-                        Self { #defaults }
-                    }
+        // A struct with no fields still needs its `Default`: the constructor relies on it.
+        quote! [
+            impl #impl_generics Default for #ident #type_generics #where_clause {
+                fn default() -> Self {
+                    Self { #defaults }
                 }
-            ]
-        }
-        else {
-            // It's already empty, what sense in allocating another copy?
-            defaults
-        }
+            }
+        ]
     }
 
     fn builder_struct_visibility(&self) -> TokenStream {
-- 
2.43.0


From bbabd8eec816868e49950135d83de7640a0a943e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:35 +0000
Subject: [PATCH 34/42] fix: private(off) of a helper does not conflict with
 public

---
 fieldx_derive_support/src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/fieldx_derive_support/src/lib.rs b/fieldx_derive_support/src/lib.rs
index a9690bd..1f959ad 100644
--- a/fieldx_derive_support/src/lib.rs
+++ b/fieldx_derive_support/src/lib.rs
@@ -73,8 +73,8 @@ pub fn fxhelper(args: proc_macro::TokenStream, input: proc_macro::TokenStream) -
     exclusives.insert(
         "visibility".to_string(),
         vec![
-            (format_ident!("public"), quote![is_some]),
-            (format_ident!("private"), quote![is_some]),
+            (format_ident!("public"), quote![is_some()]),
+            (format_ident!("private"), quote![as_ref().map_or(false, FXTriggerHelper::is_true)]),
         ],
     );
 
@@ -84,10 +84,10 @@ pub fn fxhelper(args: proc_macro::TokenStream, input: proc_macro::TokenStream) -
                 let ident = ident.clone();
                 let check_method = if let syn::Type::Path(ref tpath) = field.ty {
                     if tpath.path.is_ident("Flag") {
-                        quote![is_present]
+                        quote![is_present()]
                     }
                     else {
-                        quote![is_some]
+                        quote![is_some()]
                     }
                 }
                 else {
@@ -152,7 +152,7 @@ pub fn fxhelper(args: proc_macro::TokenStream, input: proc_macro::TokenStream) -
         for (ident, check_method) in fields.iter() {
             let ident_str = ident.to_string();
             checks.push(quote![
-                if self.#ident.#check_method() {
+                if self.#ident.#check_method {
                     set_params.push(#ident_str);
                 }
             ]);
-- 
2.43.0


From 406cfe6ae736d6fc9dcc7eac4ea10b2d58eedb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:31 +0000
Subject: [PATCH 35/42] fix: mode(sync) and mode(async) require their crate
 features

---
 fieldx_derive/src/fields.rs    |  8 ++++++--
 fieldx_derive/src/util.rs      | 14 +++++++++++++-
 fieldx_derive/src/util/args.rs |  8 ++++++--
 3 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/fieldx_derive/src/fields.rs b/fieldx_derive/src/fields.rs
index 6e8f214..5da0ee7 100644
--- a/fieldx_derive/src/fields.rs
+++ b/fieldx_derive/src/fields.rs
@@ -153,12 +153,16 @@ impl FXFieldReceiver {
         // }
 
         #[cfg(not(feature = "sync"))]
-        if let Some(err) = crate::util::feature_required("sync", &self.mode_sync) {
+        if let Some(err) = crate::util::feature_required("sync", &self.mode_sync)
+            .or_else(|| crate::util::mode_feature_required("sync", FXSyncMode::Sync, &self.mode))
+        {
             acc.push(err);
         }
 
         #[cfg(not(feature = "async"))]
-        if let Some(err) = crate::util::feature_required("async", &self.mode_async) {
+        if let Some(err) = crate::util::feature_required("async", &self.mode_async)
+            .or_else(|| crate::util::mode_feature_required("async", FXSyncMode::Async, &self.mode))
+        {
             acc.push(err);
         }
 
diff --git a/fieldx_derive/src/util.rs b/fieldx_derive/src/util.rs
index 07a9328..bc2406b 100644
--- a/fieldx_derive/src/util.rs
+++ b/fieldx_derive/src/util.rs
@@ -1,5 +1,5 @@
 pub(crate) mod args;
-use fieldx_aux::{FXOrig, FXTriggerHelper};
+use fieldx_aux::{FXOrig, FXSynValue, FXSyncMode, FXTriggerHelper};
 use proc_macro2::TokenStream;
 use quote::quote;
 
@@ -109,3 +109,15 @@ where
     }
     None
 }
+
+// Same as above, but for argument `mode(...)`.
+#[allow(dead_code)]
+pub(crate) fn mode_feature_required(
+    feature: &str,
+    mode: FXSyncMode,
+    arg: &Option<FXSynValue<FXSyncMode>>,
+) -> Option<darling::Error> {
+    arg.as_ref().filter(|m| ****m == mode).map(|m| {
+        darling::Error::custom(format!("feature '{}' is required", feature)).with_span(&m.fx_span())
+    })
+}
diff --git a/fieldx_derive/src/util/args.rs b/fieldx_derive/src/util/args.rs
index f18d385..c02a92c 100644
--- a/fieldx_derive/src/util/args.rs
+++ b/fieldx_derive/src/util/args.rs
@@ -87,12 +87,16 @@ impl FXSArgs {
         }
 
         #[cfg(not(feature = "sync"))]
-        if let Some(err) = crate::util::feature_required("sync", &self.mode_sync) {
+        if let Some(err) = crate::util::feature_required("sync", &self.mode_sync)
+            .or_else(|| crate::util::mode_feature_required("sync", FXSyncMode::Sync, &self.mode))
+        {
             acc.push(err);
         }
 
         #[cfg(not(feature = "async"))]
-        if let Some(err) = crate::util::feature_required("async", &self.mode_async) {
+        if let Some(err) = crate::util::feature_required("async", &self.mode_async)
+            .or_else(|| crate::util::mode_feature_required("async", FXSyncMode::Async, &self.mode))
+        {
             acc.push(err);
         }
 
-- 
2.43.0


From 72717f0834e3f7c3eda883f057935b4c361ed917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:10 +0000
Subject: [PATCH 36/42] fix: serde support for generic structs with parameters
 only used by fields not in the shadow

---
 fieldx_derive/src/codegen.rs       | 18 ++++++++++++------
 fieldx_derive/src/codegen/serde.rs | 20 +++++++++++++++++++-
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/fieldx_derive/src/codegen.rs b/fieldx_derive/src/codegen.rs
index 3f3c57b..cfac335 100644
--- a/fieldx_derive/src/codegen.rs
+++ b/fieldx_derive/src/codegen.rs
@@ -436,21 +436,27 @@ impl FXRewriter {
 
     // Skipped fields have no place in the builder but they may be the only ones using some of generic parameters.
     fn builder_phantom(&self) -> TokenStream {
+        self.phantom_field(|fctx| fctx.is_skipped())
+            .map_or_else(|| quote![], |phantom| quote![#phantom,])
+    }
+
+    // A marker for the types of the fields a companion struct leaves out.
+    fn phantom_field(&self, is_left_out: impl Fn(&FXFieldCtx) -> bool) -> Option<TokenStream> {
         let ctx = self.ctx();
         if ctx.input().generics().params.is_empty() {
-            return quote![];
+            return None;
         }
-        let skipped: Vec<TokenStream> = ctx
+        let left_out: Vec<TokenStream> = ctx
             .all_fields()
             .into_iter()
             .filter_map(|field| ctx.field_ctx(field).ok())
-            .filter(|fctx| fctx.is_skipped() && ctx.myself_field().as_ref() != Some(fctx.ident()))
+            .filter(|fctx| is_left_out(fctx) && ctx.myself_field().as_ref() != Some(fctx.ident()))
             .map(|fctx| fctx.ty().to_token_stream())
             .collect();
-        if skipped.is_empty() {
-            return quote![];
+        if left_out.is_empty() {
+            return None;
         }
-        quote![__fieldx_phantom: ::std::marker::PhantomData<fn() -> ( #( #skipped, )* )>,]
+        Some(quote![__fieldx_phantom: ::std::marker::PhantomData<fn() -> ( #( #left_out, )* )>])
     }
 
     fn builder_struct(&self) -> TokenStream {
diff --git a/fieldx_derive/src/codegen/serde.rs b/fieldx_derive/src/codegen/serde.rs
index a0beda6..638c6ce 100644
--- a/fieldx_derive/src/codegen/serde.rs
+++ b/fieldx_derive/src/codegen/serde.rs
@@ -226,6 +226,7 @@ pub trait FXCGenSerde: FXCodeGenContextual {
 }
 
 pub trait FXRewriteSerde {
+    fn serde_shadow_phantom(&self) -> Option<TokenStream>;
     fn serde_derive_traits(&self) -> Vec<TokenStream>;
     fn serde_struct_attribute(&self) -> darling::Result<()>;
     fn serde_shadow_struct(&self) -> darling::Result<()>;
@@ -237,6 +238,11 @@ pub trait FXRewriteSerde {
 }
 
 impl FXRewriteSerde for super::FXRewriter {
+    // The shadow struct has the same generic parameters but not all of the fields using them.
+    fn serde_shadow_phantom(&self) -> Option<TokenStream> {
+        self.phantom_field(|fctx| !fctx.is_serde())
+    }
+
     fn serde_derive_traits(&self) -> Vec<TokenStream> {
         let mut traits: Vec<TokenStream> = vec![];
         let ctx = self.ctx();
@@ -299,11 +305,17 @@ impl FXRewriteSerde for super::FXRewriter {
             let shadow_ident = ctx.shadow_ident();
             let fields = ctx.shadow_fields();
             let mut attrs = vec![];
-            let derive_attr = crate::util::derive_toks(&self.serde_derive_traits());
             let generics = ctx.input().generics();
             let (impl_generics, type_generics, where_clause) = generics.split_for_impl();
             let vis = serde_helper.public_mode().map(|pm| pm.to_token_stream());
             let user_attributes = serde_helper.attributes().as_ref().or_else(|| args.attributes().as_ref());
+            let derive_traits = self.serde_derive_traits();
+            let derive_attr = crate::util::derive_toks(&derive_traits);
+            let phantom = self.serde_shadow_phantom().map(|phantom| {
+                let skip_attr = (!derive_traits.is_empty()).then(|| quote![#[serde(skip)]]);
+                quote![#skip_attr #phantom,]
+            });
+            let phantom_default = phantom.as_ref().map(|_| quote![__fieldx_phantom: ::std::marker::PhantomData,]);
 
             attrs.push(derive_attr);
 
@@ -317,6 +329,7 @@ impl FXRewriteSerde for super::FXRewriter {
                     impl #impl_generics ::std::default::Default for #shadow_ident #type_generics #where_clause {
                         fn default() -> Self {
                             Self {
+                                #phantom_default
                                 #( #shadow_defaults ),*
                             }
                         }
@@ -331,6 +344,7 @@ impl FXRewriteSerde for super::FXRewriter {
                 #( #attrs )*
                 #user_attributes
                 #vis struct #shadow_ident #generics #where_clause {
+                    #phantom
                     #( #fields ),*
                 }
                 #default_impl
@@ -414,6 +428,9 @@ impl FXRewriteSerde for super::FXRewriter {
             let mut lazy_inits = vec![];
             let me_var = ctx.me_var_ident();
             let (impl_generics, type_generics, where_clause) = ctx.input().generics().split_for_impl();
+            let phantom = self
+                .serde_shadow_phantom()
+                .map(|_| quote![__fieldx_phantom: ::std::marker::PhantomData,]);
 
             for field in ctx.all_fields() {
                 let fctx = ctx.field_ctx(field);
@@ -449,6 +466,7 @@ impl FXRewriteSerde for super::FXRewriter {
                     fn from(mut #me_var: #struct_ident #type_generics) -> Self {
                         #( #lazy_inits )*
                         Self {
+                            #phantom
                             #( #fields, )*
                         }
                     }
-- 
2.43.0


From 23fa5cad9cb5801901517ddcc721f6c116574af5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:15:27 +0000
Subject: [PATCH 37/42] fix: comparing two lock-protected containers could
 deadlock with the reverse comparison

a == b and b == a in two threads locked the two containers in opposite orders;
with writers queued in between, each waited for the other. Lock by address.
---
 fieldx/src/async/fxlock.rs | 19 ++++++++++++++-----
 fieldx/src/sync/fxlock.rs  | 19 ++++++++++++++-----
 fieldx/src/sync/fxproxy.rs | 18 ++++++++++++++----
 3 files changed, 42 insertions(+), 14 deletions(-)

diff --git a/fieldx/src/async/fxlock.rs b/fieldx/src/async/fxlock.rs
index 425a6d6..5f5093f 100644
--- a/fieldx/src/async/fxlock.rs
+++ b/fieldx/src/async/fxlock.rs
@@ -35,14 +35,23 @@ where
     T: PartialEq,
 {
     fn eq(&self, other: &Self) -> bool {
-        let myguard = self.0.blocking_read();
         // Never lock the same container twice: that would block for good if a writer has queued in between.
         if std::ptr::eq(self, other) {
-            return myguard.eq(&myguard);
+            let guard = self.0.blocking_read();
+            return guard.eq(&guard);
+        }
+        // Lock in the order of addresses. Otherwise a == b and b == a in two threads, with a writer queued on either of
+        // the two, would wait for each other.
+        if std::ptr::from_ref(self) < std::ptr::from_ref(other) {
+            let myguard = self.0.blocking_read();
+            let otherguard = other.0.blocking_read();
+            myguard.eq(&otherguard)
+        }
+        else {
+            let otherguard = other.0.blocking_read();
+            let myguard = self.0.blocking_read();
+            myguard.eq(&otherguard)
         }
-        let otherguard = other.0.blocking_read();
-
-        myguard.eq(&otherguard)
     }
 }
 
diff --git a/fieldx/src/sync/fxlock.rs b/fieldx/src/sync/fxlock.rs
index bc3c7a1..ff4c1c7 100644
--- a/fieldx/src/sync/fxlock.rs
+++ b/fieldx/src/sync/fxlock.rs
@@ -25,14 +25,23 @@ where
     T: PartialEq,
 {
     fn eq(&self, other: &Self) -> bool {
-        let myguard = self.0.read();
         // Never lock the same container twice: that would block for good if a writer has queued in between.
         if std::ptr::eq(self, other) {
-            return myguard.eq(&myguard);
+            let guard = self.0.read();
+            return guard.eq(&guard);
+        }
+        // Lock in the order of addresses. Otherwise a == b and b == a in two threads, with a writer queued on either of
+        // the two, would wait for each other.
+        if std::ptr::from_ref(self) < std::ptr::from_ref(other) {
+            let myguard = self.0.read();
+            let otherguard = other.0.read();
+            myguard.eq(&otherguard)
+        }
+        else {
+            let otherguard = other.0.read();
+            let myguard = self.0.read();
+            myguard.eq(&otherguard)
         }
-        let otherguard = other.0.read();
-
-        myguard.eq(&otherguard)
     }
 }
 
diff --git a/fieldx/src/sync/fxproxy.rs b/fieldx/src/sync/fxproxy.rs
index cc16041..1e48a9f 100644
--- a/fieldx/src/sync/fxproxy.rs
+++ b/fieldx/src/sync/fxproxy.rs
@@ -262,13 +262,23 @@ where
     V: PartialEq,
 {
     fn eq(&self, other: &Self) -> bool {
-        let myguard = self.value.read();
         // Never lock the same container twice: that would block for good if a writer has queued in between.
         if std::ptr::eq(self, other) {
-            return myguard.eq(&myguard);
+            let guard = self.value.read();
+            return guard.eq(&guard);
+        }
+        // Lock in the order of addresses. Otherwise a == b and b == a in two threads, with a writer queued on either of
+        // the two, would wait for each other.
+        if std::ptr::from_ref(self) < std::ptr::from_ref(other) {
+            let myguard = self.value.read();
+            let otherguard = other.value.read();
+            myguard.eq(&otherguard)
+        }
+        else {
+            let otherguard = other.value.read();
+            let myguard = self.value.read();
+            myguard.eq(&otherguard)
         }
-        let otherguard = other.value.read();
-        myguard.eq(&otherguard)
     }
 }
 
-- 
2.43.0


From ade95b8da3d13dcf92b2a9052c4c9018c1870607 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:15:27 +0000
Subject: [PATCH 38/42] fix: helpers of fields with raw identifiers lost the r#
 and did not compile

get, a builder setter or an empty prefix use the name of the field as it is.
---
 fieldx_derive/src/codegen/codegen_trait.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fieldx_derive/src/codegen/codegen_trait.rs b/fieldx_derive/src/codegen/codegen_trait.rs
index 2750af9..f6ee268 100644
--- a/fieldx_derive/src/codegen/codegen_trait.rs
+++ b/fieldx_derive/src/codegen/codegen_trait.rs
@@ -135,6 +135,11 @@ pub trait FXCodeGenContextual {
             .unwrap_or("");
         let suffix = helper_kind.default_suffix().unwrap_or("");
 
+        // Taken as is, the name must not lose its r#.
+        if prefix.is_empty() && suffix.is_empty() {
+            return Ok(helper_base_name);
+        }
+
         Ok(format_ident!(
             "{}{}{}",
             prefix,
-- 
2.43.0


From 3da5fe6b8ac54ca63b5d1ca33b35befd2853f02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:50 +0000
Subject: [PATCH 39/42] fix: serde support asked for Default of the types of
 inner_mut fields

---
 fieldx_derive/src/codegen/plain.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/src/codegen/plain.rs b/fieldx_derive/src/codegen/plain.rs
index e156de6..312712d 100644
--- a/fieldx_derive/src/codegen/plain.rs
+++ b/fieldx_derive/src/codegen/plain.rs
@@ -479,9 +479,12 @@ impl FXCodeGenContextual for FXCodeGenPlain {
         let field_ident = fctx.ident_tok();
         let me_var = self.ctx().me_var_ident();
 
-        Ok(if fctx.is_lazy() || fctx.is_inner_mut() {
+        Ok(if fctx.is_lazy() {
             quote![ #me_var.#field_ident.take() ]
         }
+        else if fctx.is_inner_mut() {
+            quote![ #me_var.#field_ident.into_inner() ]
+        }
         else if fctx.is_optional() {
             quote![ #me_var.#field_ident ]
         }
-- 
2.43.0


From e2815916abe5d12f58b6556ac635703b13675bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:31 +0000
Subject: [PATCH 40/42] fix: reading an initialized async lazy field took its
 lock exclusively

A second read in the same task, with the guard of the first still alive,
never completed, and concurrent readers waited for each other.
---
 fieldx/src/async/fxproxy.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/fieldx/src/async/fxproxy.rs b/fieldx/src/async/fxproxy.rs
index 1206c29..2c8b826 100644
--- a/fieldx/src/async/fxproxy.rs
+++ b/fieldx/src/async/fxproxy.rs
@@ -165,12 +165,23 @@ where
         Ok(guard)
     }
 
+    // Only an uninitialized field needs the exclusive lock; otherwise readers must not wait for each other.
+    async fn read_init<'a>(&'a self, owner: &B::Owner) -> Result<RwLockReadGuard<'a, Option<B::Value>>, B::Error> {
+        {
+            let guard = self.value.read().await;
+            if (*guard).is_some() {
+                return Ok(guard);
+            }
+        }
+        Ok(RwLockWriteGuard::downgrade(self.read_or_init(owner).await?))
+    }
+
     /// Lazy-initialize the field if necessary and return lock read guard for the inner value.
     ///
     /// Panics if fallible field builder returns an error.
     pub async fn read<'a>(&'a self, owner: &B::Owner) -> RwLockReadGuard<'a, B::Value> {
         RwLockReadGuard::map(
-            RwLockWriteGuard::downgrade(self.read_or_init(owner).await.unwrap()),
+            self.read_init(owner).await.unwrap(),
             |data: &Option<B::Value>| data.as_ref().unwrap(),
         )
     }
@@ -190,7 +201,7 @@ where
     /// Return the same error, as fallible field builder if it errors out.
     pub async fn try_read<'a>(&'a self, owner: &B::Owner) -> Result<RwLockReadGuard<'a, B::Value>, B::Error> {
         Ok(RwLockReadGuard::map(
-            RwLockWriteGuard::downgrade(self.read_or_init(owner).await?),
+            self.read_init(owner).await?,
             |data: &Option<B::Value>| data.as_ref().unwrap(),
         ))
     }
-- 
2.43.0


From fe7bf729b296a029ee99c7de6d4a4c3881a344c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:12 +0000
Subject: [PATCH 41/42] fix: attributes with values or paths in attributes*
 arguments

The list was split at any punctuation, so `attributes_fn(doc = "...")` or `attributes_fn(rustfmt::skip)` fell apart. Split at commas only.
---
 fieldx_aux/src/attributes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fieldx_aux/src/attributes.rs b/fieldx_aux/src/attributes.rs
index bf7298a..06e5dbd 100644
--- a/fieldx_aux/src/attributes.rs
+++ b/fieldx_aux/src/attributes.rs
@@ -28,9 +28,9 @@ impl FromMeta for FXAttributes {
         match input {
             Meta::List(ref ml) => {
                 let ml_chunks: Vec<TokenStream> = vec![TokenStream::new()];
-                // Split the incoming tokenstream into chunks separated by Puncts (i.e. by commas)
+                // Split the incoming tokenstream into chunks separated by commas
                 let mut ml_chunks = ml.tokens.clone().into_iter().fold(ml_chunks, |mut mlc, item| {
-                    if let proc_macro2::TokenTree::Punct(_) = item {
+                    if matches!(item, proc_macro2::TokenTree::Punct(ref punct) if punct.as_char() == ',') {
                         mlc.push(TokenStream::new());
                     }
                     else {
-- 
2.43.0


From fa9e7b9589a5916b647db413ec6d31a756497aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:35 +0000
Subject: [PATCH 42/42] fix: generated code does not depend on prelude names
 being unshadowed where the struct is declared

---
 fieldx_derive/src/codegen.rs                 | 8 ++++----
 fieldx_derive/src/codegen/plain.rs           | 4 ++--
 fieldx_derive/src/codegen/sync/impl_async.rs | 2 +-
 fieldx_derive/src/ctx/field.rs               | 2 +-
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/fieldx_derive/src/codegen.rs b/fieldx_derive/src/codegen.rs
index cfac335..3ebb2d5 100644
--- a/fieldx_derive/src/codegen.rs
+++ b/fieldx_derive/src/codegen.rs
@@ -292,7 +292,7 @@ impl FXRewriter {
 
         // A struct with no fields still needs its `Default`: the constructor relies on it.
         quote! [
-            impl #impl_generics Default for #ident #type_generics #where_clause {
+            impl #impl_generics ::std::default::Default for #ident #type_generics #where_clause {
                 fn default() -> Self {
                     Self { #defaults }
                 }
@@ -342,7 +342,7 @@ impl FXRewriter {
         for fctx in self.builder_field_ctxs() {
             if let Ok(fctx) = fctx {
                 let ident = fctx.ident();
-                fields_new.push(quote! { #ident: None });
+                fields_new.push(quote! { #ident: ::std::option::Option::None });
 
                 let fgen = match self.field_codegen(&fctx) {
                     Ok(fgen) => fgen,
@@ -428,7 +428,7 @@ impl FXRewriter {
                 #builders
                 #vis fn build(&mut self) -> ::std::result::Result<#builder_return_type, #builder_error_type> {
                     #( #builder_checkers );*
-                    Ok(#construction)
+                    ::std::result::Result::Ok(#construction)
                 }
             }
         ]
@@ -533,7 +533,7 @@ impl FXRewriter {
             Some(quote![
                 #[allow(dead_code)]
                 fn __fieldx_copy_validation() {
-                    fn field_implements_copy<T: ?Sized + Copy>() {}
+                    fn field_implements_copy<T: ?::std::marker::Sized + ::std::marker::Copy>() {}
                     #( field_implements_copy::<#copyables>(); )*
                 }
             ])
diff --git a/fieldx_derive/src/codegen/plain.rs b/fieldx_derive/src/codegen/plain.rs
index 312712d..dddf177 100644
--- a/fieldx_derive/src/codegen/plain.rs
+++ b/fieldx_derive/src/codegen/plain.rs
@@ -178,7 +178,7 @@ impl FXCodeGenContextual for FXCodeGenPlain {
                 let mut shortcut = quote![];
 
                 if fctx.is_fallible() {
-                    get_mut = quote_spanned! {span=> Ok(#get_mut) };
+                    get_mut = quote_spanned! {span=> ::std::result::Result::Ok(#get_mut) };
                     shortcut = quote_spanned![span=> ?];
                 }
 
@@ -278,7 +278,7 @@ impl FXCodeGenContextual for FXCodeGenPlain {
 
                 if fctx.is_inner_mut() {
                     let value_tok = if fctx.is_optional() {
-                        quote![Some(value #into_tok)]
+                        quote![::std::option::Option::Some(value #into_tok)]
                     }
                     else {
                         quote![value #into_tok]
diff --git a/fieldx_derive/src/codegen/sync/impl_async.rs b/fieldx_derive/src/codegen/sync/impl_async.rs
index 7b75dad..9336213 100644
--- a/fieldx_derive/src/codegen/sync/impl_async.rs
+++ b/fieldx_derive/src/codegen/sync/impl_async.rs
@@ -39,7 +39,7 @@ impl FXSyncImplDetails for FXAsyncImplementor {
         let lazy_builder_name = codegen.lazy_name(fctx)?;
         let builder_return = codegen.fallible_return_type(fctx, fctx.ty())?;
         Ok(
-            quote_spanned![span=> fn #wrapper_name(&self) -> ::std::pin::Pin<::std::boxed::Box<dyn ::std::future::Future<Output = #builder_return> + Send + '_>> {
+            quote_spanned![span=> fn #wrapper_name(&self) -> ::std::pin::Pin<::std::boxed::Box<dyn ::std::future::Future<Output = #builder_return> + ::std::marker::Send + '_>> {
                 ::std::boxed::Box::pin(
                     self.#lazy_builder_name()
                 )
diff --git a/fieldx_derive/src/ctx/field.rs b/fieldx_derive/src/ctx/field.rs
index fd157d9..952850d 100644
--- a/fieldx_derive/src/ctx/field.rs
+++ b/fieldx_derive/src/ctx/field.rs
@@ -479,7 +479,7 @@ impl FXFieldCtx {
 
     pub fn fallible_ok_return(&self, ret: TokenStream) -> TokenStream {
         if self.is_fallible() {
-            quote! {Ok(#ret)}
+            quote! {::std::result::Result::Ok(#ret)}
         }
         else {
             ret
-- 
2.43.0

