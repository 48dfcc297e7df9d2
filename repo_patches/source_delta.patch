From 5f429b6824d8ccd29e8fd03143747338350d4a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:51 +0000
Subject: [PATCH 01/33] fix: deliver debug prints completely under short and
 interrupted writes

print_int, print_nat, print_float and print_bytes issued one raw write and
ignored its result, so a short or interrupted write silently lost output.
Use the retrying write path that the other print entry points use.
---
 crates/tribute-runtime/src/lib.rs | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/crates/tribute-runtime/src/lib.rs b/crates/tribute-runtime/src/lib.rs
index 1520e5b..a8c5fd7 100644
--- a/crates/tribute-runtime/src/lib.rs
+++ b/crates/tribute-runtime/src/lib.rs
@@ -141,10 +141,8 @@ unsafe extern "C" {
 pub extern "C" fn __tribute_print_int(value: i32) {
     let mut buf = itoa::Buffer::new();
     let s = buf.format(value);
-    unsafe {
-        write(1, s.as_ptr(), s.len());
-        write(1, b"\n".as_ptr(), 1);
-    }
+    write_stdout_all(s.as_bytes());
+    write_stdout_all(b"\n");
 }
 
 /// Print an unsigned 32-bit integer to stdout, followed by a newline.
@@ -156,10 +154,8 @@ pub extern "C" fn __tribute_print_int(value: i32) {
 pub extern "C" fn __tribute_print_nat(value: u32) {
     let mut buf = itoa::Buffer::new();
     let s = buf.format(value);
-    unsafe {
-        write(1, s.as_ptr(), s.len());
-        write(1, b"\n".as_ptr(), 1);
-    }
+    write_stdout_all(s.as_bytes());
+    write_stdout_all(b"\n");
 }
 
 /// Print a 64-bit float to stdout, followed by a newline.
@@ -171,10 +167,8 @@ pub extern "C" fn __tribute_print_nat(value: u32) {
 pub extern "C" fn __tribute_print_float(value: f64) {
     let mut buf = zmij::Buffer::new();
     let s = buf.format(value);
-    unsafe {
-        write(1, s.as_ptr(), s.len());
-        write(1, b"\n".as_ptr(), 1);
-    }
+    write_stdout_all(s.as_bytes());
+    write_stdout_all(b"\n");
 }
 
 /// Print raw bytes to stdout (no newline appended).
@@ -197,9 +191,7 @@ pub unsafe extern "C" fn __tribute_print_bytes(ptr: *const u8, len: u64) {
     let Ok(len) = usize::try_from(len) else {
         return;
     };
-    unsafe {
-        write(1, ptr, len);
-    }
+    write_stdout_all(unsafe { core::slice::from_raw_parts(ptr, len) });
 }
 
 /// Print a newline character to stdout.
-- 
2.43.0


From 6b764bc589fc99c540e95d5dd51c5596b925df1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:33 +0000
Subject: [PATCH 02/33] fix: accept functions with an effect row variable in
 method resolution

Indexing a function whose first parameter has a named type and whose own
effect annotation mentions a row variable reached an unreachable!, so
compiling fn f(xs: List(Int), g: fn(Int) ->{e} Int) ->{e} Int panicked.
---
 crates/tribute-front/src/tdnr/resolver.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/crates/tribute-front/src/tdnr/resolver.rs b/crates/tribute-front/src/tdnr/resolver.rs
index b56ba56..f176502 100644
--- a/crates/tribute-front/src/tdnr/resolver.rs
+++ b/crates/tribute-front/src/tdnr/resolver.rs
@@ -162,7 +162,6 @@ impl<'db> TdnrResolver<'db> {
                     }
 
                     // Skip if receiver type is not determinable (e.g., bare type variable).
-                    // This also prevents build_func_type from hitting open effect rows.
                     let first_param = &func.params[0];
                     if self
                         .extract_receiver_type_from_annotation(&first_param.ty)
@@ -326,15 +325,15 @@ impl<'db> TdnrResolver<'db> {
             return EffectRow::pure(self.db);
         }
 
-        // TDNR builds closed rows only (no fresh row variables).
-        // Lowercase names and Infer annotations are filtered out by the shared helper.
+        // TDNR has no fresh row variables: a row variable in the annotation opens
+        // the row with the same placeholder an omitted annotation gets.
         // We use an empty prefix since TDNR works after resolution phase.
         crate::ast::abilities_to_effect_row(
             self.db,
             anns,
             "",
             &mut |ann| self.annotation_to_type_in_scope(&Some(ann.clone()), prefix),
-            || unreachable!("TDNR does not support open effect rows"),
+            || crate::ast::EffectVar { id: 0 },
         )
     }
 
@@ -435,7 +434,7 @@ impl<'db> TdnrResolver<'db> {
     ///
     /// Returns `Some(name)` for Named, Path, and App annotations.
     /// Returns `None` for bare type variables and other non-determinable annotations.
-    /// Used as a guard before calling `build_func_type` to avoid open effect row panics.
+    /// Used as a guard before calling `build_func_type`.
     fn extract_receiver_type_from_annotation(
         &self,
         annotation: &Option<crate::ast::TypeAnnotation>,
-- 
2.43.0


From 7b349fd811d97eac4c9ae2a79be196023c079e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:39 +0000
Subject: [PATCH 03/33] fix: read a struct's untouched fields at their own type
 in a record spread

A spread T { ..base, a: x } loaded every field it keeps as a reference, so
a Nat, Int, Bool or Float field was read as a pointer and the program crashed.
---
 crates/tribute-front/src/ast_to_ir/lower/expr.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/tribute-front/src/ast_to_ir/lower/expr.rs b/crates/tribute-front/src/ast_to_ir/lower/expr.rs
index ef0f79a..9d1d58b 100644
--- a/crates/tribute-front/src/ast_to_ir/lower/expr.rs
+++ b/crates/tribute-front/src/ast_to_ir/lower/expr.rs
@@ -701,14 +701,16 @@ fn lower_value_impl<'db>(
                 None => builder.ctx.anyref_type(builder.ir),
             };
             let any_ty = builder.ctx.anyref_type(builder.ir);
+            let field_types = trunk_ir::adt_layout::get_struct_fields(builder.ir, type_attr);
 
             let mut ordered_values: Vec<ValueRef> = Vec::with_capacity(field_order.len());
             for (i, field_name) in field_order.iter().enumerate() {
                 if let Some(val) = field_map.get(field_name) {
                     ordered_values.push(*val);
                 } else if let Some(base) = spread_val {
+                    let field_ty = field_types.as_ref().map_or(any_ty, |fields| fields[i].1);
                     let get_op =
-                        adt::struct_get(builder.ir, location, base, any_ty, type_attr, i as u32);
+                        adt::struct_get(builder.ir, location, base, field_ty, type_attr, i as u32);
                     builder.ir.push_op(builder.block, get_op.op_ref());
                     ordered_values.push(get_op.result(builder.ir));
                 } else {
-- 
2.43.0


From 466e1b11cb71bfe84840d9d2fb5fccb60842c21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:24 +0000
Subject: [PATCH 04/33] fix: give variant tests the width of other booleans in
 native code

A constructor pattern combined with another condition (inside a tuple or
list pattern) failed to compile: adt.variant_is kept icmp's i8 where every
other boolean is widened.
---
 .../src/passes/adt_to_clif.rs                        | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/trunk-ir-cranelift-backend/src/passes/adt_to_clif.rs b/crates/trunk-ir-cranelift-backend/src/passes/adt_to_clif.rs
index 157e1c9..46cb2e2 100644
--- a/crates/trunk-ir-cranelift-backend/src/passes/adt_to_clif.rs
+++ b/crates/trunk-ir-cranelift-backend/src/passes/adt_to_clif.rs
@@ -201,6 +201,9 @@ impl RewritePattern for VariantIsPattern {
             return false;
         };
 
+        let Some(result_ty) = rewriter.result_type(ctx, op, 0) else {
+            return false;
+        };
         let loc = ctx.op(op).location;
         let i32_ty = intern_i32_type(ctx);
         let i1_ty = intern_i1_type(ctx);
@@ -223,7 +226,14 @@ impl RewritePattern for VariantIsPattern {
 
         rewriter.insert_op(tag_load.op_ref());
         rewriter.insert_op(expected.op_ref());
-        rewriter.replace_op(cmp_op.op_ref());
+        if result_ty == i1_ty {
+            rewriter.replace_op(cmp_op.op_ref());
+        } else {
+            // `icmp` yields an i8: widen it to the type other booleans have.
+            rewriter.insert_op(cmp_op.op_ref());
+            let ext_op = clif::uextend(ctx, loc, cmp_op.result(ctx), result_ty);
+            rewriter.replace_op(ext_op.op_ref());
+        }
         true
     }
 }
-- 
2.43.0


From 25f9adcc418db9bb623c39de6d3fbc6477a23b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:24 +0000
Subject: [PATCH 05/33] fix: test the fields of constructor patterns

Only the constructor was compared, so `Some(0)` matched `Some(5)` and
`Error(A)` matched `Error(B)`.
---
 .../tribute-front/src/ast_to_ir/lower/case.rs | 107 +++++++++++++++++-
 1 file changed, 105 insertions(+), 2 deletions(-)

diff --git a/crates/tribute-front/src/ast_to_ir/lower/case.rs b/crates/tribute-front/src/ast_to_ir/lower/case.rs
index bae3c20..4fdff08 100644
--- a/crates/tribute-front/src/ast_to_ir/lower/case.rs
+++ b/crates/tribute-front/src/ast_to_ir/lower/case.rs
@@ -473,7 +473,7 @@ pub(super) fn emit_pattern_check<'db>(
             builder.ir.push_op(builder.block, op.op_ref());
             Some(op.result(builder.ir))
         }
-        PatternKind::Variant { ctor, .. } => {
+        PatternKind::Variant { ctor, fields } => {
             // Test if scrutinee is of the specific variant
             let (variant_name, enum_ty) = match &ctor.resolved {
                 ResolvedRef::Constructor { variant, .. } => {
@@ -498,7 +498,18 @@ pub(super) fn emit_pattern_check<'db>(
                 variant_name,
             );
             builder.ir.push_op(builder.block, op.op_ref());
-            Some(op.result(builder.ir))
+            let tag = op.result(builder.ir);
+            if fields.iter().all(is_irrefutable_pattern) {
+                return Some(tag);
+            }
+            emit_variant_fields_check(
+                builder,
+                location,
+                scrutinee,
+                tag,
+                (variant_name, enum_ty),
+                fields,
+            )
         }
         PatternKind::Literal(lit) => emit_literal_check(builder, location, scrutinee, lit),
         PatternKind::Tuple(elements) => {
@@ -555,6 +566,98 @@ pub(super) fn emit_pattern_check<'db>(
     }
 }
 
+/// Check the fields of a variant pattern, once its tag is known to match.
+///
+/// The fields can only be read from a value of that variant, so they are
+/// checked in the `then` region of an `scf.if` on the tag.
+fn emit_variant_fields_check<'db>(
+    builder: &mut IrBuilder<'_, 'db>,
+    location: Location,
+    scrutinee: ValueRef,
+    tag: ValueRef,
+    (variant, enum_ty): (Symbol, TypeRef),
+    fields: &[Pattern<TypedRef<'db>>],
+) -> Option<ValueRef> {
+    let bool_ty = builder.ctx.bool_type(builder.ir);
+    let variant_fields = get_enum_variants(builder.ir, enum_ty)
+        .expect("variant pattern must lower from an ADT enum type")
+        .into_iter()
+        .find_map(|(tag, fields)| (tag == variant).then_some(fields))
+        .expect("resolved constructor must exist in enum metadata");
+
+    let then_block = builder.ir.create_block(BlockData {
+        location,
+        args: vec![],
+        ops: Default::default(),
+        parent_region: None,
+    });
+    let matched = {
+        let mut nested = IrBuilder::new(builder.ctx, builder.ir, then_block);
+        let cast = adt::variant_cast(nested.ir, location, scrutinee, enum_ty, enum_ty, variant);
+        nested.ir.push_op(nested.block, cast.op_ref());
+        let cast = cast.result(nested.ir);
+        let mut matched: Option<ValueRef> = None;
+        for (i, field) in fields.iter().enumerate() {
+            if is_irrefutable_pattern(field) {
+                continue;
+            }
+            let field_ty = variant_fields
+                .get(i)
+                .copied()
+                .expect("type checking must reject out-of-range variant pattern fields");
+            let get = adt::variant_get(
+                nested.ir, location, cast, field_ty, enum_ty, variant, i as u32,
+            );
+            nested.ir.push_op(nested.block, get.op_ref());
+            let value = get.result(nested.ir);
+            let value = match nested.ctx.get_node_type(field.id).copied() {
+                Some(ty) => {
+                    let ty = nested.ctx.convert_type(nested.ir, ty);
+                    nested.cast_if_needed(location, value, ty)
+                }
+                None => value,
+            };
+            let condition = emit_pattern_check(&mut nested, location, value, field)?;
+            matched = Some(match matched {
+                Some(previous) => {
+                    let and = arith::and(nested.ir, location, previous, condition, bool_ty);
+                    nested.ir.push_op(nested.block, and.op_ref());
+                    and.result(nested.ir)
+                }
+                None => condition,
+            });
+        }
+        matched?
+    };
+    let yield_op = scf::r#yield(builder.ir, location, [matched]);
+    builder.ir.push_op(then_block, yield_op.op_ref());
+    let then_region = builder.ir.create_region(RegionData {
+        location,
+        blocks: trunk_ir::smallvec::smallvec![then_block],
+        parent_op: None,
+    });
+
+    let else_block = builder.ir.create_block(BlockData {
+        location,
+        args: vec![],
+        ops: Default::default(),
+        parent_region: None,
+    });
+    let mismatch = arith::r#const(builder.ir, location, bool_ty, Attribute::Bool(false));
+    builder.ir.push_op(else_block, mismatch.op_ref());
+    let yield_op = scf::r#yield(builder.ir, location, [mismatch.result(builder.ir)]);
+    builder.ir.push_op(else_block, yield_op.op_ref());
+    let else_region = builder.ir.create_region(RegionData {
+        location,
+        blocks: trunk_ir::smallvec::smallvec![else_block],
+        parent_op: None,
+    });
+
+    let checked = scf::r#if(builder.ir, location, tag, bool_ty, then_region, else_region);
+    builder.ir.push_op(builder.block, checked.op_ref());
+    Some(checked.result(builder.ir))
+}
+
 /// Source-logical pattern checking.
 ///
 /// This intentionally does not call the physical tuple/list helpers above:
-- 
2.43.0


From e04bad9ee1de0b5de816f9a3fb41378547e66e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:21 +0000
Subject: [PATCH 06/33] fix: unbox the argument of one-parameter operations in
 handler arms

Only operations with several parameters converted their arguments to the
declared types, so an arm that stored its Int argument in a tuple, or
matched on its Bool argument, used the box instead of the value.
---
 .../src/ast_to_ir/lower/handle.rs             | 40 ++++++++++++-------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/crates/tribute-front/src/ast_to_ir/lower/handle.rs b/crates/tribute-front/src/ast_to_ir/lower/handle.rs
index f2a8518..8407727 100644
--- a/crates/tribute-front/src/ast_to_ir/lower/handle.rs
+++ b/crates/tribute-front/src/ast_to_ir/lower/handle.rs
@@ -1188,27 +1188,37 @@ fn bind_handler_params<'db>(
     params: &[Pattern<TypedRef<'db>>],
     anyref_ty: TypeRef,
 ) {
+    // Cast anyref → actual param type (inserts unbox via unrealized_conversion_cast)
+    fn bind_param<'db>(
+        ctx: &mut IrLoweringCtx<'db>,
+        ir: &mut IrContext,
+        block: trunk_ir::refs::BlockRef,
+        location: Location,
+        mut value: ValueRef,
+        param: &Pattern<TypedRef<'db>>,
+        anyref_ty: TypeRef,
+    ) {
+        let param_ty = ctx
+            .get_node_type(param.id)
+            .map(|ty| ctx.convert_type(ir, *ty))
+            .unwrap_or(anyref_ty);
+        if param_ty != anyref_ty {
+            let cast_op = core::unrealized_conversion_cast(ir, location, value, param_ty);
+            ir.push_op(block, cast_op.op_ref());
+            value = cast_op.result(ir);
+        }
+        bind_pattern_fields(ctx, ir, block, location, value, param);
+    }
+
     if params.len() == 1 {
-        bind_pattern_fields(ctx, ir, block, location, value, &params[0]);
+        bind_param(ctx, ir, block, location, value, &params[0], anyref_ty);
     } else if params.len() > 1 {
         let tuple_ty = super::expr::ability_args_tuple_type(ir, params.len());
         for (i, param) in params.iter().enumerate() {
             let field_op = adt::struct_get(ir, location, value, anyref_ty, tuple_ty, i as u32);
             ir.push_op(block, field_op.op_ref());
-            let mut field_val = field_op.result(ir);
-
-            // Cast anyref → actual param type (inserts unbox via unrealized_conversion_cast)
-            let param_ty = ctx
-                .get_node_type(param.id)
-                .map(|ty| ctx.convert_type(ir, *ty))
-                .unwrap_or(anyref_ty);
-            if param_ty != anyref_ty {
-                let cast_op = core::unrealized_conversion_cast(ir, location, field_val, param_ty);
-                ir.push_op(block, cast_op.op_ref());
-                field_val = cast_op.result(ir);
-            }
-
-            bind_pattern_fields(ctx, ir, block, location, field_val, param);
+            let field_val = field_op.result(ir);
+            bind_param(ctx, ir, block, location, field_val, param, anyref_ty);
         }
     }
 }
-- 
2.43.0


From 96cf0988aa17a8a04e80980a432f0df2f184a589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:00 +0000
Subject: [PATCH 07/33] fix: bind the fields of a constructor pattern at their
 own type

---
 crates/tribute-front/src/ast_to_ir/lower/case.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/tribute-front/src/ast_to_ir/lower/case.rs b/crates/tribute-front/src/ast_to_ir/lower/case.rs
index 4fdff08..6a4f98d 100644
--- a/crates/tribute-front/src/ast_to_ir/lower/case.rs
+++ b/crates/tribute-front/src/ast_to_ir/lower/case.rs
@@ -1531,7 +1531,14 @@ pub(super) fn bind_pattern_fields<'db>(
                     i as u32,
                 );
                 ir.push_op(block, field_op.op_ref());
-                let field_val = field_op.result(ir);
+                let mut field_val = field_op.result(ir);
+                // A field of a type parameter is stored boxed: bind it at the
+                // type it has here.
+                if let Some(ty) = ctx.get_node_type(field_pat.id).copied() {
+                    let ty = ctx.convert_type(ir, ty);
+                    field_val =
+                        IrBuilder::new(ctx, ir, block).cast_if_needed(location, field_val, ty);
+                }
                 bind_pattern_fields(ctx, ir, block, location, field_val, field_pat);
             }
         }
-- 
2.43.0


From 67f6f0746bec909b3a9ebc91a9701e7caecc0a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:00 +0000
Subject: [PATCH 08/33] fix: store tuple elements at the types of the tuple's
 fields

---
 crates/tribute-front/src/ast_to_ir/lower/expr.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/tribute-front/src/ast_to_ir/lower/expr.rs b/crates/tribute-front/src/ast_to_ir/lower/expr.rs
index 9d1d58b..d20d89f 100644
--- a/crates/tribute-front/src/ast_to_ir/lower/expr.rs
+++ b/crates/tribute-front/src/ast_to_ir/lower/expr.rs
@@ -8,7 +8,7 @@ use salsa::Accumulator;
 use tribute_core::diagnostic::{CompilationPhase, Diagnostic, DiagnosticSeverity};
 use tribute_core::set_calling_convention;
 use trunk_ir::Symbol;
-use trunk_ir::adt_layout::get_enum_variants;
+use trunk_ir::adt_layout::{get_enum_variants, get_struct_fields};
 use trunk_ir::context::IrContext;
 use trunk_ir::dialect::{adt, arith, core, func, scf};
 use trunk_ir::refs::{TypeRef, ValueRef};
@@ -627,6 +627,14 @@ fn lower_value_impl<'db>(
                     }
                     None => (any_ty, any_ty),
                 };
+            let values = match get_struct_fields(builder.ir, type_attr) {
+                Some(fields) if fields.len() == values.len() => values
+                    .into_iter()
+                    .zip(fields)
+                    .map(|(value, (_, ty))| builder.cast_if_needed(location, value, ty))
+                    .collect(),
+                _ => values,
+            };
             let op = adt::struct_new(builder.ir, location, values, result_ty, type_attr);
             builder.ir.push_op(builder.block, op.op_ref());
             let result = op.result(builder.ir);
-- 
2.43.0


From 852dcd6ed4f414f9dff0bf115968c0b51147adc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:45 +0000
Subject: [PATCH 09/33] fix: do not generalize types that an unresolved method
 call still determines

---
 crates/tribute-front/src/typeck/checker/expr.rs | 10 ++++++++++
 crates/tribute-front/src/typeck/func_context.rs | 12 ++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/crates/tribute-front/src/typeck/checker/expr.rs b/crates/tribute-front/src/typeck/checker/expr.rs
index 2a1d10e..98e144c 100644
--- a/crates/tribute-front/src/typeck/checker/expr.rs
+++ b/crates/tribute-front/src/typeck/checker/expr.rs
@@ -1613,6 +1613,16 @@ impl<'db> TypeChecker<'db> {
                     }
                 }
             }
+            // The types of a method call that is not resolved yet are still to
+            // be determined, so they are not free to be generalized.
+            for ty in ctx.deferred_method_types() {
+                type_subst.collect_univars_from_type(
+                    self.db(),
+                    ty,
+                    &row_subst,
+                    &mut environment_type_vars,
+                );
+            }
         }
 
         let resolved_value = type_subst.apply_with_rows(self.db(), value_ty, &row_subst);
diff --git a/crates/tribute-front/src/typeck/func_context.rs b/crates/tribute-front/src/typeck/func_context.rs
index b0b15d2..e18eb26 100644
--- a/crates/tribute-front/src/typeck/func_context.rs
+++ b/crates/tribute-front/src/typeck/func_context.rs
@@ -359,6 +359,18 @@ impl<'a, 'db> FunctionInferenceContext<'a, 'db> {
         self.deferred_methods.push(deferred);
     }
 
+    /// The types involved in the deferred method calls recorded so far.
+    pub fn deferred_method_types(&self) -> Vec<Type<'db>> {
+        self.deferred_methods
+            .iter()
+            .flat_map(|mc| {
+                [mc.receiver_ty, mc.result_ty]
+                    .into_iter()
+                    .chain(mc.arg_types.iter().copied())
+            })
+            .collect()
+    }
+
     /// Take ownership of deferred method calls.
     pub fn take_deferred_methods(&mut self) -> Vec<DeferredMethodCall<'db>> {
         std::mem::take(&mut self.deferred_methods)
-- 
2.43.0


From 66101e7cb4496fc1166bc04c1457d23d883ea62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:53 +0000
Subject: [PATCH 10/33] fix: retain a live value that a jump also passes to a
 block argument

---
 .../tribute-passes/src/native/rc_insertion.rs | 53 +++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/crates/tribute-passes/src/native/rc_insertion.rs b/crates/tribute-passes/src/native/rc_insertion.rs
index b98854b..a3db9d9 100644
--- a/crates/tribute-passes/src/native/rc_insertion.rs
+++ b/crates/tribute-passes/src/native/rc_insertion.rs
@@ -1186,6 +1186,27 @@ fn borrowed_use_kind(ctx: &IrContext, op: OpRef) -> BorrowedUseKind {
     BorrowedUseKind::Escaping
 }
 
+/// Whether `value`, seen through casts, is used by an operation other than `user`.
+fn has_other_uses(ctx: &IrContext, value: ValueRef, user: OpRef) -> bool {
+    let mut root = value;
+    while let ValueDef::OpResult(op, _) = ctx.value_def(root)
+        && core::UnrealizedConversionCast::matches(ctx, op)
+    {
+        root = ctx.op_operands(op)[0];
+    }
+    let mut worklist = vec![root];
+    while let Some(value) = worklist.pop() {
+        for usage in ctx.uses(value) {
+            if core::UnrealizedConversionCast::matches(ctx, usage.user) {
+                worklist.extend(ctx.op_results(usage.user).iter().copied());
+            } else if usage.user != user {
+                return true;
+            }
+        }
+    }
+    false
+}
+
 /// Insert RC ops in a single block.
 #[allow(clippy::too_many_arguments)]
 fn insert_rc_in_block(
@@ -1285,6 +1306,38 @@ fn insert_rc_in_block(
 
     // --- Retain insertions ---
 
+    // 0. A jump transfers one reference per argument to the target's block
+    // argument. A value that stays live keeps its own reference, so every
+    // argument it is passed as needs another one.
+    if let Some(&last_op) = ops.last()
+        && clif::Jump::matches(ctx, last_op)
+    {
+        let mut passed: HashSet<ValueRef> = HashSet::new();
+        let arguments = ctx.op_operands(last_op).to_vec();
+        let parameters = ctx.block_args(ctx.op(last_op).successors[0]).to_vec();
+        for (argument, parameter) in arguments.into_iter().zip(parameters) {
+            let owned = ptr_alias_map.get(&argument).copied().unwrap_or(argument);
+            if !is_anyref_value(ctx, parameter) || is_static_ptr(ctx, argument) {
+                continue;
+            }
+            let stays_live = if ptr_values.contains(&owned) {
+                live_out.contains(&owned)
+            } else {
+                // Fresh allocations are plain pointers whose liveness is not
+                // tracked: assume that any other use may come later.
+                has_other_uses(ctx, argument, last_op)
+            };
+            if !passed.insert(owned) || stays_live {
+                let op_loc = ctx.op(last_op).location;
+                let retain_op = tribute_rt::retain(ctx, op_loc, argument, ptr_ty);
+                plan.before
+                    .entry(ops.len() - 1)
+                    .or_default()
+                    .push(retain_op.op_ref());
+            }
+        }
+    }
+
     // 1. Entry block: retain each ptr parameter
     if is_entry {
         let args: Vec<ValueRef> = ctx.block_args(block).to_vec();
-- 
2.43.0


From 49643a24931fb909d3fa03f3128d8c99d7d68f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:11 +0000
Subject: [PATCH 11/33] fix: infer the type of && and || inside larger
 expressions

---
 crates/tribute-front/src/typeck/checker/expr.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/tribute-front/src/typeck/checker/expr.rs b/crates/tribute-front/src/typeck/checker/expr.rs
index 98e144c..12bd7d3 100644
--- a/crates/tribute-front/src/typeck/checker/expr.rs
+++ b/crates/tribute-front/src/typeck/checker/expr.rs
@@ -691,6 +691,18 @@ impl<'db> TypeChecker<'db> {
                 fields,
                 spread,
             } => self.infer_record_type_with_ctx(ctx, type_name, fields, spread.as_ref()),
+            ExprKind::BinOp { op, lhs, rhs } => {
+                let lhs_ty = self.infer_expr_type_with_ctx(ctx, lhs);
+                let rhs_ty = self.infer_expr_type_with_ctx(ctx, rhs);
+                match op {
+                    BinOpKind::And | BinOpKind::Or => {
+                        let bool_ty = ctx.bool_type();
+                        ctx.constrain_eq(lhs_ty, bool_ty);
+                        ctx.constrain_eq(rhs_ty, bool_ty);
+                        bool_ty
+                    }
+                }
+            }
             ExprKind::Block { stmts, value } => {
                 ctx.push_scope();
                 for stmt in stmts {
-- 
2.43.0


From b7bd3598af644cd860cb9398f702e067002b1595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:11 +0000
Subject: [PATCH 12/33] fix: tie the variables of tuple and list patterns to
 the matched value's type

---
 crates/tribute-front/src/typeck/checker/expr.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/tribute-front/src/typeck/checker/expr.rs b/crates/tribute-front/src/typeck/checker/expr.rs
index 12bd7d3..28ea6e2 100644
--- a/crates/tribute-front/src/typeck/checker/expr.rs
+++ b/crates/tribute-front/src/typeck/checker/expr.rs
@@ -1877,6 +1877,8 @@ impl<'db> TypeChecker<'db> {
                     }
                 } else {
                     let fresh_vars: Vec<_> = pats.iter().map(|_| ctx.fresh_type_var()).collect();
+                    let tuple_ty = ctx.tuple_type(fresh_vars.clone());
+                    ctx.constrain_eq(ty, tuple_ty);
                     for (pat, fresh_ty) in pats.iter().zip(fresh_vars) {
                         self.bind_pattern_vars_with_ctx(ctx, pat, fresh_ty);
                     }
@@ -1911,6 +1913,8 @@ impl<'db> TypeChecker<'db> {
             PatternKind::List(pats) => {
                 // Extract element type from the list type, or create a fresh var
                 let elem_ty = self.extract_list_element_type(ty, ctx);
+                let list_ty = ctx.canonical_list_type(elem_ty);
+                ctx.constrain_eq(ty, list_ty);
                 for pat in pats {
                     self.bind_pattern_vars_with_ctx(ctx, pat, elem_ty);
                 }
@@ -1922,12 +1926,13 @@ impl<'db> TypeChecker<'db> {
             } => {
                 // Extract element type from the list type, or create a fresh var
                 let elem_ty = self.extract_list_element_type(ty, ctx);
+                let list_ty = ctx.canonical_list_type(elem_ty);
+                ctx.constrain_eq(ty, list_ty);
                 for pat in head {
                     self.bind_pattern_vars_with_ctx(ctx, pat, elem_ty);
                 }
                 if let Some(local_id) = rest_local_id {
                     // The rest is also a list of the same element type
-                    let list_ty = ctx.canonical_list_type(elem_ty);
                     ctx.bind_local(*local_id, list_ty);
                 }
             }
-- 
2.43.0


From e9dc525e1473b76f43d531f2569ba0ed310095fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:37 +0000
Subject: [PATCH 13/33] fix: give a handle expression of type Nil a Nil value

The answer of a handler was converted from the control carrier to Nil by a
cast that native code cannot represent, so a function returning a Nil-valued
handle failed code generation, directly or where it was inlined.
---
 crates/tribute-front/src/ast_to_ir/lower/control.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/tribute-front/src/ast_to_ir/lower/control.rs b/crates/tribute-front/src/ast_to_ir/lower/control.rs
index 960714a..a0466ac 100644
--- a/crates/tribute-front/src/ast_to_ir/lower/control.rs
+++ b/crates/tribute-front/src/ast_to_ir/lower/control.rs
@@ -357,6 +357,11 @@ pub(super) fn handle_answer_to_source(
     answer: ControlResultRef<HandleAnswer>,
     logical_ty: TypeRef,
 ) -> ValueRef {
+    // As at the root delimiter: a carrier cannot be converted to a Nil value.
+    if logical_ty == builder.ctx.nil_type(builder.ir) {
+        let _ = answer;
+        return builder.emit_nil(location);
+    }
     builder.cast_if_needed(location, answer.0, logical_ty)
 }
 
-- 
2.43.0


From c4a40d33f205c827a7be64ca62a5911177e25ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:56 +0000
Subject: [PATCH 14/33] fix: run a handler's done clause with the evidence
 around the handler

resolve_evidence rewrote the done region of a handle with the evidence that
the handled computation sees. The done clause, and in a CPS function the rest
of the caller's computation that it continues, then found the finished
handler for the handled ability instead of the enclosing one.
---
 crates/tribute-passes/src/resolve_evidence.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/tribute-passes/src/resolve_evidence.rs b/crates/tribute-passes/src/resolve_evidence.rs
index f7bb44a..fdba671 100644
--- a/crates/tribute-passes/src/resolve_evidence.rs
+++ b/crates/tribute-passes/src/resolve_evidence.rs
@@ -892,12 +892,14 @@ fn transform_shifts_in_block(
             }
 
             // Always transform handler body region, even when abilities is
-            // empty, so that any shifts inside are properly resolved.
+            // empty, so that any shifts inside are properly resolved. It runs
+            // after the handled computation has finished, so it sees the
+            // evidence around the handler, not the extended one.
             let handler_body = dispatch_op.body(ctx);
             transform_shifts_in_region(
                 ctx,
                 handler_body,
-                current_ev,
+                ev_value,
                 fns_with_evidence,
                 prepend_evidence,
             )?;
-- 
2.43.0


From fac4850a22ca8681455f1372bfe951afe67d0635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:18 +0000
Subject: [PATCH 15/33] fix: replace the evidence of a call that already passes
 one

In a function without evidence of its own, the evidence of a handler was
prepended to every call in the done clause, also to calls of effect-polymorphic
functions that pass an evidence argument already, which were then rejected for
their arity.
---
 crates/tribute-passes/src/resolve_evidence.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/tribute-passes/src/resolve_evidence.rs b/crates/tribute-passes/src/resolve_evidence.rs
index fdba671..30c6424 100644
--- a/crates/tribute-passes/src/resolve_evidence.rs
+++ b/crates/tribute-passes/src/resolve_evidence.rs
@@ -920,7 +920,9 @@ fn transform_shifts_in_block(
                         .copied()
                         .unwrap_or_else(|| core::nil(ctx).as_type_ref());
 
-                    let new_args = if prepend_evidence {
+                    let has_evidence = first_arg
+                        .is_some_and(|arg| ability::is_evidence_type_ref(ctx, ctx.value_ty(arg)));
+                    let new_args = if prepend_evidence && !has_evidence {
                         // Handler root: evidence_calls couldn't add evidence,
                         // so PREPEND it before all existing args.
                         let mut args = vec![ev_value];
-- 
2.43.0


From 3e5537ee6a2e243fb815db4d96a268643ec0da05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:23 +0000
Subject: [PATCH 16/33] fix: pass a resumed body's value through a handler arm
 unread

An arm that resumes read the value of the resumed body at the type of the
arm's result before passing it on boxed. With an empty list or Nil as the
body's value, and a handler whose result is a number or a Bool, that read
went through a null pointer.
---
 crates/tribute-front/src/ast_to_ir/lower/control.rs |  7 ++++---
 crates/tribute-front/src/ast_to_ir/lower/expr.rs    | 11 +++--------
 crates/tribute-front/src/ast_to_ir/lower/handle.rs  |  9 +--------
 3 files changed, 8 insertions(+), 19 deletions(-)

diff --git a/crates/tribute-front/src/ast_to_ir/lower/control.rs b/crates/tribute-front/src/ast_to_ir/lower/control.rs
index a0466ac..c03dfc4 100644
--- a/crates/tribute-front/src/ast_to_ir/lower/control.rs
+++ b/crates/tribute-front/src/ast_to_ir/lower/control.rs
@@ -128,7 +128,6 @@ pub(super) fn resume_into_current<D: ControlDomain>(
     location: Location,
     resume: ResumeRef,
     value: ValueRef,
-    logical_ty: TypeRef,
     current_k: ContinuationRef<D>,
     current_owner: ValueRef,
 ) -> ControlResultRef<D> {
@@ -175,8 +174,10 @@ pub(super) fn resume_into_current<D: ControlDomain>(
             0,
         );
         normal_builder.ir.push_op(normal_block, payload.op_ref());
-        let payload =
-            normal_builder.cast_if_needed(location, payload.result(normal_builder.ir), logical_ty);
+        // The payload travels boxed. The continuation reads it at the type of
+        // `resume` where it uses it; reading it here as well would do so for a
+        // body whose value the arm only passes on.
+        let payload = payload.result(normal_builder.ir);
         let after_arm = invoke_continuation(&mut normal_builder, location, current_k, payload);
         // `current_k` is the arm-local completion chain, so its result is a
         // proven private Escape. A suffix may have forwarded a foreign Escape;
diff --git a/crates/tribute-front/src/ast_to_ir/lower/expr.rs b/crates/tribute-front/src/ast_to_ir/lower/expr.rs
index d20d89f..21e59a2 100644
--- a/crates/tribute-front/src/ast_to_ir/lower/expr.rs
+++ b/crates/tribute-front/src/ast_to_ir/lower/expr.rs
@@ -1105,14 +1105,9 @@ pub(super) fn lower_comp_normalized<'db, D: ControlDomain>(
         ExprKind::BinOp { op, lhs, rhs } => {
             lower_short_circuit_comp(builder, location, op, lhs, rhs, continuation)
         }
-        ExprKind::Resume { arg, local_id } => super::handle::lower_resume_comp(
-            builder,
-            location,
-            expr.id,
-            arg,
-            local_id,
-            continuation,
-        ),
+        ExprKind::Resume { arg, local_id } => {
+            super::handle::lower_resume_comp(builder, location, arg, local_id, continuation)
+        }
         ExprKind::Handle { body, handlers } => {
             super::handle::lower_handle_comp(builder, location, &body, &handlers, continuation)
         }
diff --git a/crates/tribute-front/src/ast_to_ir/lower/handle.rs b/crates/tribute-front/src/ast_to_ir/lower/handle.rs
index 8407727..661095e 100644
--- a/crates/tribute-front/src/ast_to_ir/lower/handle.rs
+++ b/crates/tribute-front/src/ast_to_ir/lower/handle.rs
@@ -204,7 +204,6 @@ pub(super) fn lower_handle_source<'db>(
 pub(super) fn lower_resume_comp<'db, D: ControlDomain>(
     builder: &mut IrBuilder<'_, 'db>,
     location: Location,
-    expr_id: crate::ast::NodeId,
     arg: Expr<TypedRef<'db>>,
     local_id: Option<crate::ast::LocalId>,
     current_k: ContinuationRef<D>,
@@ -216,14 +215,8 @@ pub(super) fn lower_resume_comp<'db, D: ControlDomain>(
         .handler_owner_tag()
         .expect("resume must be lowered inside an owner-tagged general handler arm");
     let arg = super::expr::lower_value_normalized(builder, arg)?;
-    let logical_ty = builder
-        .ctx
-        .get_node_type(expr_id)
-        .copied()
-        .map(|ty| builder.ctx.convert_type(builder.ir, ty))
-        .unwrap_or_else(|| builder.ctx.anyref_type(builder.ir));
     Some(resume_into_current(
-        builder, location, resume, arg, logical_ty, current_k, owner_tag,
+        builder, location, resume, arg, current_k, owner_tag,
     ))
 }
 
-- 
2.43.0


From bc8f368b94948430edd9275a436ca13025a82faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:15 +0000
Subject: [PATCH 17/33] fix: pass on the answer of a function that resumes
 inside a handler arm

A resume in a lambda of an op arm completes the lambda, whose continuation
yields its caller's answer. It was read as the arm's own Escape, so the owner
tag came from whatever object the answer was, or from a null pointer.
---
 .../src/ast_to_ir/lower/control.rs            | 200 ++++++++++--------
 1 file changed, 106 insertions(+), 94 deletions(-)

diff --git a/crates/tribute-front/src/ast_to_ir/lower/control.rs b/crates/tribute-front/src/ast_to_ir/lower/control.rs
index c03dfc4..f8b1fe7 100644
--- a/crates/tribute-front/src/ast_to_ir/lower/control.rs
+++ b/crates/tribute-front/src/ast_to_ir/lower/control.rs
@@ -22,6 +22,11 @@ pub(super) trait ControlDomain: private::Sealed {
     /// Whether a nested handle must retain the private control carrier for
     /// the current continuation instead of closing it as a source delimiter.
     const PROPAGATES_HANDLES: bool;
+
+    /// Whether the current continuation completes a handler arm, which yields
+    /// a private Escape. A function's own continuation yields its caller's
+    /// answer instead.
+    const COMPLETES_ARM: bool;
 }
 
 pub(super) enum Ambient {}
@@ -33,12 +38,15 @@ impl private::Sealed for HandleAnswer {}
 impl private::Sealed for TailResume {}
 impl ControlDomain for Ambient {
     const PROPAGATES_HANDLES: bool = true;
+    const COMPLETES_ARM: bool = false;
 }
 impl ControlDomain for HandleAnswer {
     const PROPAGATES_HANDLES: bool = true;
+    const COMPLETES_ARM: bool = true;
 }
 impl ControlDomain for TailResume {
     const PROPAGATES_HANDLES: bool = false;
+    const COMPLETES_ARM: bool = true;
 }
 
 /// A source-result continuation whose opaque answer belongs to `D`.
@@ -179,100 +187,104 @@ pub(super) fn resume_into_current<D: ControlDomain>(
         // body whose value the arm only passes on.
         let payload = payload.result(normal_builder.ir);
         let after_arm = invoke_continuation(&mut normal_builder, location, current_k, payload);
-        // `current_k` is the arm-local completion chain, so its result is a
-        // proven private Escape. A suffix may have forwarded a foreign Escape;
-        // only the current dynamic owner can become Normal here.
-        let escape = adt::variant_cast(
-            normal_builder.ir,
-            location,
-            after_arm.0,
-            anyref_ty,
-            control_ty,
-            trunk_ir::Symbol::new(ability::CPS_CONTROL_ESCAPE_VARIANT),
-        );
-        normal_builder.ir.push_op(normal_block, escape.op_ref());
-        let owner = adt::variant_get(
-            normal_builder.ir,
-            location,
-            escape.result(normal_builder.ir),
-            i32_ty,
-            control_ty,
-            trunk_ir::Symbol::new(ability::CPS_CONTROL_ESCAPE_VARIANT),
-            0,
-        );
-        normal_builder.ir.push_op(normal_block, owner.op_ref());
-        let payload = adt::variant_get(
-            normal_builder.ir,
-            location,
-            escape.result(normal_builder.ir),
-            anyref_ty,
-            control_ty,
-            trunk_ir::Symbol::new(ability::CPS_CONTROL_ESCAPE_VARIANT),
-            1,
-        );
-        normal_builder.ir.push_op(normal_block, payload.op_ref());
-        let owner_matches = trunk_ir::dialect::arith::cmpi(
-            normal_builder.ir,
-            location,
-            owner.result(normal_builder.ir),
-            current_owner,
-            bool_ty,
-            trunk_ir::Symbol::new("eq"),
-        );
-        normal_builder
-            .ir
-            .push_op(normal_block, owner_matches.op_ref());
-        let own_block = normal_builder.ir.create_block(BlockData {
-            location,
-            args: vec![],
-            ops: Default::default(),
-            parent_region: None,
-        });
-        let retagged = adt::variant_new(
-            normal_builder.ir,
-            location,
-            vec![payload.result(normal_builder.ir)],
-            anyref_ty,
-            control_ty,
-            trunk_ir::Symbol::new(ability::CPS_CONTROL_NORMAL_VARIANT),
-        );
-        normal_builder.ir.push_op(own_block, retagged.op_ref());
-        let own_yield = scf::r#yield(
-            normal_builder.ir,
-            location,
-            [retagged.result(normal_builder.ir)],
-        );
-        normal_builder.ir.push_op(own_block, own_yield.op_ref());
-        let own_region = normal_builder.ir.create_region(RegionData {
-            location,
-            blocks: trunk_ir::smallvec::smallvec![own_block],
-            parent_op: None,
-        });
-        let foreign_block = normal_builder.ir.create_block(BlockData {
-            location,
-            args: vec![],
-            ops: Default::default(),
-            parent_region: None,
-        });
-        let foreign_yield = scf::r#yield(normal_builder.ir, location, [after_arm.0]);
-        normal_builder
-            .ir
-            .push_op(foreign_block, foreign_yield.op_ref());
-        let foreign_region = normal_builder.ir.create_region(RegionData {
-            location,
-            blocks: trunk_ir::smallvec::smallvec![foreign_block],
-            parent_op: None,
-        });
-        let selected = scf::r#if(
-            normal_builder.ir,
-            location,
-            owner_matches.result(normal_builder.ir),
-            anyref_ty,
-            own_region,
-            foreign_region,
-        );
-        normal_builder.ir.push_op(normal_block, selected.op_ref());
-        let selected = selected.result(normal_builder.ir);
+        let selected = if D::COMPLETES_ARM {
+            // `current_k` is the arm-local completion chain, so its result is a
+            // proven private Escape. A suffix may have forwarded a foreign Escape;
+            // only the current dynamic owner can become Normal here.
+            let escape = adt::variant_cast(
+                normal_builder.ir,
+                location,
+                after_arm.0,
+                anyref_ty,
+                control_ty,
+                trunk_ir::Symbol::new(ability::CPS_CONTROL_ESCAPE_VARIANT),
+            );
+            normal_builder.ir.push_op(normal_block, escape.op_ref());
+            let owner = adt::variant_get(
+                normal_builder.ir,
+                location,
+                escape.result(normal_builder.ir),
+                i32_ty,
+                control_ty,
+                trunk_ir::Symbol::new(ability::CPS_CONTROL_ESCAPE_VARIANT),
+                0,
+            );
+            normal_builder.ir.push_op(normal_block, owner.op_ref());
+            let payload = adt::variant_get(
+                normal_builder.ir,
+                location,
+                escape.result(normal_builder.ir),
+                anyref_ty,
+                control_ty,
+                trunk_ir::Symbol::new(ability::CPS_CONTROL_ESCAPE_VARIANT),
+                1,
+            );
+            normal_builder.ir.push_op(normal_block, payload.op_ref());
+            let owner_matches = trunk_ir::dialect::arith::cmpi(
+                normal_builder.ir,
+                location,
+                owner.result(normal_builder.ir),
+                current_owner,
+                bool_ty,
+                trunk_ir::Symbol::new("eq"),
+            );
+            normal_builder
+                .ir
+                .push_op(normal_block, owner_matches.op_ref());
+            let own_block = normal_builder.ir.create_block(BlockData {
+                location,
+                args: vec![],
+                ops: Default::default(),
+                parent_region: None,
+            });
+            let retagged = adt::variant_new(
+                normal_builder.ir,
+                location,
+                vec![payload.result(normal_builder.ir)],
+                anyref_ty,
+                control_ty,
+                trunk_ir::Symbol::new(ability::CPS_CONTROL_NORMAL_VARIANT),
+            );
+            normal_builder.ir.push_op(own_block, retagged.op_ref());
+            let own_yield = scf::r#yield(
+                normal_builder.ir,
+                location,
+                [retagged.result(normal_builder.ir)],
+            );
+            normal_builder.ir.push_op(own_block, own_yield.op_ref());
+            let own_region = normal_builder.ir.create_region(RegionData {
+                location,
+                blocks: trunk_ir::smallvec::smallvec![own_block],
+                parent_op: None,
+            });
+            let foreign_block = normal_builder.ir.create_block(BlockData {
+                location,
+                args: vec![],
+                ops: Default::default(),
+                parent_region: None,
+            });
+            let foreign_yield = scf::r#yield(normal_builder.ir, location, [after_arm.0]);
+            normal_builder
+                .ir
+                .push_op(foreign_block, foreign_yield.op_ref());
+            let foreign_region = normal_builder.ir.create_region(RegionData {
+                location,
+                blocks: trunk_ir::smallvec::smallvec![foreign_block],
+                parent_op: None,
+            });
+            let selected = scf::r#if(
+                normal_builder.ir,
+                location,
+                owner_matches.result(normal_builder.ir),
+                anyref_ty,
+                own_region,
+                foreign_region,
+            );
+            normal_builder.ir.push_op(normal_block, selected.op_ref());
+            selected.result(normal_builder.ir)
+        } else {
+            after_arm.0
+        };
         emit_control_yield(
             &mut normal_builder,
             location,
-- 
2.43.0


From 800d1c76799459b8e225f5bd9e9457995467cf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:19 +0000
Subject: [PATCH 18/33] fix: emit the relocations of the release table in index
 order

The table's entries were written in the iteration order of a hash map, so two
compilations of the same program gave different object files.
---
 crates/trunk-ir-cranelift-backend/src/translate.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/trunk-ir-cranelift-backend/src/translate.rs b/crates/trunk-ir-cranelift-backend/src/translate.rs
index 18538ac..bbce4e5 100644
--- a/crates/trunk-ir-cranelift-backend/src/translate.rs
+++ b/crates/trunk-ir-cranelift-backend/src/translate.rs
@@ -3,7 +3,7 @@
 //! This module provides functions for validating and emitting native object files
 //! from TrunkIR modules that have already been lowered to the clif dialect.
 
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 
 use cranelift_codegen::ir::types as cl_types;
 use cranelift_codegen::ir::{self as cl_ir, InstBuilder, UserFuncName};
@@ -71,7 +71,7 @@ struct RttiEmitInfo {
     /// DataId for the RTTI function pointer table (None if no release functions exist).
     rtti_table_data_id: Option<cranelift_module::DataId>,
     /// Mapping from rtti_idx to the corresponding release function's FuncId.
-    release_functions: HashMap<u32, FuncId>,
+    release_functions: BTreeMap<u32, FuncId>,
     /// Maximum rtti_idx seen (determines table size). 0 if no release functions.
     max_rtti_idx: u32,
 }
@@ -91,7 +91,7 @@ fn collect_and_declare_rtti(
     let ptr_ty = obj_module.target_config().pointer_type();
 
     // Scan func_ids for __tribute_release_<N> functions
-    let mut release_functions: HashMap<u32, FuncId> = HashMap::new();
+    let mut release_functions: BTreeMap<u32, FuncId> = BTreeMap::new();
     let mut max_rtti_idx: u32 = 0;
 
     for (sym, &func_id) in func_ids.iter() {
-- 
2.43.0


From 1a6c6897ee3768b80fe6a544dceb53db34e8d745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:19 +0000
Subject: [PATCH 19/33] fix: insert retains and releases in a fixed order

Values defined outside a block tie in the sort key, and transferred values were
visited in hash order, so the emitted code changed from one compilation of the
same program to the next.
---
 crates/tribute-passes/src/native/rc_insertion.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/tribute-passes/src/native/rc_insertion.rs b/crates/tribute-passes/src/native/rc_insertion.rs
index a3db9d9..cc64d31 100644
--- a/crates/tribute-passes/src/native/rc_insertion.rs
+++ b/crates/tribute-passes/src/native/rc_insertion.rs
@@ -33,7 +33,7 @@
 //! | `clif.return` operand | No release (ownership transfer to caller) |
 //! | Value dies in block (live-in but not live-out) | `release` at appropriate point |
 
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeMap, HashMap, HashSet};
 use trunk_ir::Symbol;
 use trunk_ir::context::IrContext;
 use trunk_ir::dialect::clif;
@@ -1270,7 +1270,7 @@ fn insert_rc_in_block(
             .get(usize::from(contract.is_indirect)..)
             .unwrap_or_default();
         if contract.is_tail {
-            let mut transfers: HashMap<ValueRef, (ValueRef, usize)> = HashMap::new();
+            let mut transfers: BTreeMap<ValueRef, (ValueRef, usize)> = BTreeMap::new();
             for (&argument, action) in args.iter().zip(&contract.actions) {
                 if *action != RcOwnership::Transfer {
                     continue;
@@ -1415,10 +1415,10 @@ fn insert_rc_in_block(
 
     let mut dying_sorted: Vec<ValueRef> = dying_values.into_iter().collect();
     dying_sorted.sort_by_key(|v| match ctx.value_def(*v) {
-        ValueDef::BlockArg(_, idx) => (0usize, idx),
+        ValueDef::BlockArg(_, idx) => (0usize, idx, *v),
         ValueDef::OpResult(def_op, idx) => {
             let pos = ops.iter().position(|&o| o == def_op).unwrap_or(usize::MAX);
-            (pos.saturating_add(1), idx)
+            (pos.saturating_add(1), idx, *v)
         }
     });
 
-- 
2.43.0


From 3170f537b6dccdfff0a72fe61a5ea43cca0ce1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:39 +0000
Subject: [PATCH 20/33] fix: declare referenced wasm functions in index order

The declarative element segment listed them in hash order, so two compilations
of the same program gave different modules.
---
 crates/trunk-ir-wasm-backend/src/emit.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/trunk-ir-wasm-backend/src/emit.rs b/crates/trunk-ir-wasm-backend/src/emit.rs
index 1b7001e..7f76494 100644
--- a/crates/trunk-ir-wasm-backend/src/emit.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit.rs
@@ -513,11 +513,12 @@ pub fn emit_wasm(ctx: &mut IrContext, module: IrModule) -> CompilationResult<Vec
     }
 
     if !module_info.ref_funcs.is_empty() {
-        let func_idxs: Vec<u32> = module_info
+        let mut func_idxs: Vec<u32> = module_info
             .ref_funcs
             .iter()
             .filter_map(|name| module_info.func_indices.get(name).copied())
             .collect();
+        func_idxs.sort_unstable();
         if !func_idxs.is_empty() {
             element_section.declared(Elements::Functions(Cow::Owned(func_idxs)));
         }
-- 
2.43.0


From 9e4df3395cf53fda5549de6661646fa7224fab8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:46 +0000
Subject: [PATCH 21/33] fix: keep the row variables of the checker and the
 solver apart

The solver numbered its own row variables after those in the constraints, but
a row that no constraint mentions, a lambda's for one, could already have the
number. The two were then confused, and a local closure was called with another
calling convention than it was compiled with.
---
 crates/tribute-front/src/typeck/checker/expr.rs       |  7 ++++++-
 crates/tribute-front/src/typeck/checker/func_check.rs |  2 ++
 crates/tribute-front/src/typeck/func_context.rs       | 10 ++++++++++
 crates/tribute-front/src/typeck/solver.rs             | 10 ++++++++++
 4 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/crates/tribute-front/src/typeck/checker/expr.rs b/crates/tribute-front/src/typeck/checker/expr.rs
index 28ea6e2..77a4184 100644
--- a/crates/tribute-front/src/typeck/checker/expr.rs
+++ b/crates/tribute-front/src/typeck/checker/expr.rs
@@ -1593,8 +1593,13 @@ impl<'db> TypeChecker<'db> {
         value_ty: Type<'db>,
         evaluation_effect: EffectRow<'db>,
     ) {
+        // Rows that no constraint mentions are taken too, and the solver's own
+        // may reach the bound types.
         let mut solver = TypeSolver::new(self.db());
-        if solver.solve(ctx.constraints_snapshot()).is_err() {
+        solver.reserve_row_vars(ctx.next_row_var());
+        let solved = solver.solve(ctx.constraints_snapshot());
+        ctx.reserve_row_vars(solver.next_row_var());
+        if solved.is_err() {
             self.bind_pattern_vars_with_ctx(ctx, pattern, value_ty);
             return;
         }
diff --git a/crates/tribute-front/src/typeck/checker/func_check.rs b/crates/tribute-front/src/typeck/checker/func_check.rs
index d68f0d7..45c65ff 100644
--- a/crates/tribute-front/src/typeck/checker/func_check.rs
+++ b/crates/tribute-front/src/typeck/checker/func_check.rs
@@ -138,11 +138,13 @@ impl<'db> TypeChecker<'db> {
         let body_effect_row = ctx.current_effect();
         // Take deferred methods for post-solve resolution
         let deferred_methods = ctx.take_deferred_methods();
+        let next_row_var = ctx.next_row_var();
         // Drop ctx now to release the borrow of self.env
         drop(ctx);
         self.local_generalizations = local_generalizations;
 
         let mut solver = TypeSolver::new(self.db());
+        solver.reserve_row_vars(next_row_var);
 
         if let Err(error) = solver.solve_with_origin(constraints) {
             self.report_solve_error(
diff --git a/crates/tribute-front/src/typeck/func_context.rs b/crates/tribute-front/src/typeck/func_context.rs
index e18eb26..900d7d6 100644
--- a/crates/tribute-front/src/typeck/func_context.rs
+++ b/crates/tribute-front/src/typeck/func_context.rs
@@ -229,6 +229,16 @@ impl<'a, 'db> FunctionInferenceContext<'a, 'db> {
         EffectVar { id }
     }
 
+    /// The first row variable id this context has not handed out.
+    pub(super) fn next_row_var(&self) -> u64 {
+        self.next_row_var
+    }
+
+    /// Hand out no row variable below `next`.
+    pub(super) fn reserve_row_vars(&mut self, next: u64) {
+        self.next_row_var = self.next_row_var.max(next);
+    }
+
     /// Generate a fresh effect row with only a variable.
     pub fn fresh_effect_row(&mut self) -> EffectRow<'db> {
         let var = self.fresh_row_var();
diff --git a/crates/tribute-front/src/typeck/solver.rs b/crates/tribute-front/src/typeck/solver.rs
index f0c367c..9ef4244 100644
--- a/crates/tribute-front/src/typeck/solver.rs
+++ b/crates/tribute-front/src/typeck/solver.rs
@@ -763,6 +763,16 @@ impl<'db> TypeSolver<'db> {
         EffectVar { id }
     }
 
+    /// The first row variable id this solver has not handed out.
+    pub(super) fn next_row_var(&self) -> u64 {
+        self.next_row_var
+    }
+
+    /// Hand out no row variable below `next`.
+    pub(super) fn reserve_row_vars(&mut self, next: u64) {
+        self.next_row_var = self.next_row_var.max(next);
+    }
+
     pub(super) fn reserve_effect_vars_in_type(&mut self, ty: Type<'db>) {
         for var in collect_effect_vars(self.db, ty) {
             self.reserve_effect_var(var);
-- 
2.43.0


From dd327e8a2e9c2879d959c55e0fcf5f5942cf2048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:30 +0000
Subject: [PATCH 22/33] fix: suggest equally similar names in a fixed order

---
 crates/tribute-front/src/resolve/resolver.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/tribute-front/src/resolve/resolver.rs b/crates/tribute-front/src/resolve/resolver.rs
index 69d74df..341699f 100644
--- a/crates/tribute-front/src/resolve/resolver.rs
+++ b/crates/tribute-front/src/resolve/resolver.rs
@@ -217,9 +217,10 @@ impl<'db> Resolver<'db> {
 
     /// Find names in scope that are similar to the given name.
     fn find_similar_names(&self, name: Symbol) -> Vec<Symbol> {
-        use std::collections::HashSet;
+        use std::collections::BTreeSet;
 
-        let candidates: HashSet<Symbol> = self
+        // Ordered by name, so that equally similar names are suggested in a fixed order.
+        let candidates: BTreeSet<Symbol> = self
             .local_scopes
             .iter()
             .flat_map(|scope| scope.keys().copied())
-- 
2.43.0


From 7298e0d10239043a3eedacf6ce4bf5a7f87a24e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:41 +0000
Subject: [PATCH 23/33] fix: skip nested pass targets that an earlier pass
 erased

---
 crates/trunk-ir/src/pass.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/crates/trunk-ir/src/pass.rs b/crates/trunk-ir/src/pass.rs
index 92fa180..da74ca1 100644
--- a/crates/trunk-ir/src/pass.rs
+++ b/crates/trunk-ir/src/pass.rs
@@ -242,8 +242,9 @@ impl<T: DialectOp + 'static> NestedRunner for TypedNested<T> {
         let targets = collect_targets::<T>(ctx, parent_op);
         for target in targets {
             // Skip stale refs: a previous pass in this nested manager may
-            // have erased the op.
-            if !T::matches(ctx, target.op_ref()) {
+            // have erased the op, or an op around it. Erased ops keep their
+            // arena slot, so look at whether the op is still attached.
+            if !T::matches(ctx, target.op_ref()) || !is_inside(ctx, target.op_ref(), parent_op) {
                 continue;
             }
             ensure_nested_anchor_is_isolated(ctx, target.op_ref())?;
@@ -270,6 +271,23 @@ fn target_still_alive<T: DialectOp>(ctx: &IrContext, op: OpRef, pre_attached: bo
     !pre_attached || ctx.op(op).parent_block.is_some()
 }
 
+/// Returns whether `op` is `root` or is attached somewhere below it.
+fn is_inside(ctx: &IrContext, op: OpRef, root: OpRef) -> bool {
+    let mut current = op;
+    while current != root {
+        let parent = ctx
+            .op(current)
+            .parent_block
+            .and_then(|block| ctx.block(block).parent_region)
+            .and_then(|region| ctx.region(region).parent_op);
+        match parent {
+            Some(parent) => current = parent,
+            None => return false,
+        }
+    }
+    true
+}
+
 fn collect_targets<T: DialectOp>(ctx: &IrContext, root: OpRef) -> Vec<T> {
     let mut found = Vec::new();
     let _ = walk_op::<()>(ctx, root, &mut |op| {
-- 
2.43.0


From 1e99e848ebd0e68d02f26cc288a027f3094db7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:54 +0000
Subject: [PATCH 24/33] fix: lower all unsigned integer comparisons to
 WebAssembly

---
 crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs b/crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs
index a344721..e2f91bf 100644
--- a/crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs
+++ b/crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs
@@ -254,6 +254,13 @@ impl RewritePattern for ArithCmpPattern {
                 ("i32", "sge") => wasm_dialect::i32_ge_s(ctx, loc, lhs, rhs, result_ty).op_ref(),
                 ("i64", "sge") => wasm_dialect::i64_ge_s(ctx, loc, lhs, rhs, result_ty).op_ref(),
                 ("i32", "ult") => wasm_dialect::i32_lt_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
+                ("i64", "ult") => wasm_dialect::i64_lt_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
+                ("i32", "ule") => wasm_dialect::i32_le_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
+                ("i64", "ule") => wasm_dialect::i64_le_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
+                ("i32", "ugt") => wasm_dialect::i32_gt_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
+                ("i64", "ugt") => wasm_dialect::i64_gt_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
+                ("i32", "uge") => wasm_dialect::i32_ge_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
+                ("i64", "uge") => wasm_dialect::i64_ge_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
                 _ => return false,
             };
             rewriter.replace_op(new_op);
-- 
2.43.0


From 6d2994fc50dc7950afe217f65d95c5c3d6b37343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:54 +0000
Subject: [PATCH 25/33] fix: give boolean struct fields one WebAssembly storage
 type

---
 crates/trunk-ir-wasm-backend/src/emit/gc_types_collection.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/trunk-ir-wasm-backend/src/emit/gc_types_collection.rs b/crates/trunk-ir-wasm-backend/src/emit/gc_types_collection.rs
index c3aee1c..6ddb32b 100644
--- a/crates/trunk-ir-wasm-backend/src/emit/gc_types_collection.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit/gc_types_collection.rs
@@ -106,6 +106,11 @@ fn normalize_type_for_gc(ctx: &mut IrContext, ty: TypeRef) -> TypeRef {
         return intern_wasm_structref(ctx);
     }
 
+    // Booleans are stored as i32, whichever of the two types a use carries.
+    if helpers::is_type(ctx, ty, "core", "i1") {
+        return crate::passes::arith_to_wasm::intern_i32_type(ctx);
+    }
+
     // Note: tribute_rt types (int, nat, bool, float, any, intref) should be
     // converted to core/wasm types by normalize_primitive_types pass before emit.
     ty
-- 
2.43.0


From e129529baed3af36f6c80fcc33919b8dd0590dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:35 +0000
Subject: [PATCH 26/33] fix: emit no WebAssembly code for a discarded nil value

---
 crates/trunk-ir-wasm-backend/src/emit.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/crates/trunk-ir-wasm-backend/src/emit.rs b/crates/trunk-ir-wasm-backend/src/emit.rs
index 7f76494..78da9e3 100644
--- a/crates/trunk-ir-wasm-backend/src/emit.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit.rs
@@ -959,12 +959,8 @@ fn emit_op_nested(
                 }));
                 set_result_local(ctx, op, emit_ctx, function)?;
             } else if is_nil_type(ctx, result_ty) {
-                debug!("wasm.nop: emitting ref.null none for nil type");
-                function.instruction(&Instruction::RefNull(HeapType::Abstract {
-                    shared: false,
-                    ty: AbstractHeapType::None,
-                }));
-                set_result_local(ctx, op, emit_ctx, function)?;
+                // Nothing to store: `emit_operands` materializes a nil value at its use.
+                debug!("wasm.nop: no code for nil type");
             } else {
                 debug!("wasm.nop: skipping (unknown primitive type)");
             }
-- 
2.43.0


From 5824f60dd72ebbb9d1a2e9720e2c87da1d85ecd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:21 +0000
Subject: [PATCH 27/33] fix: resolve the type index of wasm indirect calls at
 emission

func_to_wasm leaves type_idx = 0 on wasm.call_indirect for the emitter to
resolve, but the emitter took the placeholder as the index, so every module
with an indirect call referred to a struct type and was refused by engines.
---
 .../src/emit/handlers/call_handlers.rs        | 41 ++++++++-----------
 1 file changed, 16 insertions(+), 25 deletions(-)

diff --git a/crates/trunk-ir-wasm-backend/src/emit/handlers/call_handlers.rs b/crates/trunk-ir-wasm-backend/src/emit/handlers/call_handlers.rs
index c4fb863..6741405 100644
--- a/crates/trunk-ir-wasm-backend/src/emit/handlers/call_handlers.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit/handlers/call_handlers.rs
@@ -192,32 +192,23 @@ pub(crate) fn handle_call_indirect(
         ctx.types.get(result_ty).name
     );
 
-    // Get or compute type_idx
+    // The lowering leaves `type_idx` as a placeholder; the index in the type
+    // section is only known here.
     let attrs = &ctx.op(op).attributes;
-    let type_idx = match attr_u32(attrs, Symbol::new("type_idx")) {
-        Ok(idx) => {
-            debug!("call_indirect emit: using type_idx from attribute: {}", idx);
-            idx
-        }
-        Err(_) => {
-            // Look up type index
-            let idx = module_info
-                .type_idx_by_type
-                .get(&func_type)
-                .copied()
-                .ok_or_else(|| {
-                    debug!(
-                        "call_indirect emit: func_type not found in type_idx_by_type! func_type={:?}",
-                        func_type
-                    );
-                    CompilationError::invalid_module(
-                        "wasm.call_indirect function type not registered in type section",
-                    )
-                })?;
-            debug!("call_indirect emit: looked up type_idx: {}", idx);
-            idx
-        }
-    };
+    let type_idx = module_info
+        .type_idx_by_type
+        .get(&func_type)
+        .copied()
+        .ok_or_else(|| {
+            debug!(
+                "call_indirect emit: func_type not found in type_idx_by_type! func_type={:?}",
+                func_type
+            );
+            CompilationError::invalid_module(
+                "wasm.call_indirect function type not registered in type section",
+            )
+        })?;
+    debug!("call_indirect emit: looked up type_idx: {}", type_idx);
 
     // call_indirect with i32 table index
     // IR operand order: [table_idx, arg1, arg2, ...]
-- 
2.43.0


From 77ebb0546b10fb26de10c99c98c561e23556f64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:56 +0000
Subject: [PATCH 28/33] fix: quote type alias names that are not identifiers
 and read them back

A name beginning with a digit was printed bare, and an escaped quote in a
quoted name ended the lookahead early: neither text could be parsed again.
---
 crates/trunk-ir/src/parser/raw.rs | 11 ++++++-----
 crates/trunk-ir/src/printer.rs    |  6 +++---
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/crates/trunk-ir/src/parser/raw.rs b/crates/trunk-ir/src/parser/raw.rs
index 64836ad..bdc61cd 100644
--- a/crates/trunk-ir/src/parser/raw.rs
+++ b/crates/trunk-ir/src/parser/raw.rs
@@ -638,12 +638,13 @@ fn is_type_alias_def(input: &str) -> bool {
         return false;
     }
     let rest = &input[1..];
-    let after_name = if let Some(quoted) = rest.strip_prefix('"') {
-        // Quoted: skip to closing quote (simplified — no escape handling needed for lookahead)
-        match quoted.find('"') {
-            Some(end) => &quoted[end + 1..],
-            None => return false,
+    let after_name = if rest.starts_with('"') {
+        // Quoted: skip to the closing quote
+        let mut after = rest;
+        if string_lit.parse_next(&mut after).is_err() {
+            return false;
         }
+        after
     } else {
         // Bare ident
         let after_ident = rest.trim_start_matches(|c: char| c.is_ascii_alphanumeric() || c == '_');
diff --git a/crates/trunk-ir/src/printer.rs b/crates/trunk-ir/src/printer.rs
index 076eace..455afcb 100644
--- a/crates/trunk-ir/src/printer.rs
+++ b/crates/trunk-ir/src/printer.rs
@@ -434,10 +434,10 @@ pub(crate) fn write_escaped_string(f: &mut dyn Write, s: &str) -> fmt::Result {
     Ok(())
 }
 
-/// Write a type alias name with `!` prefix. Quotes if name contains non-ident chars.
+/// Write a type alias name with `!` prefix. Quotes if name is not an identifier.
 fn write_type_alias_name(f: &mut dyn Write, name: &str) -> fmt::Result {
-    let needs_quoting =
-        name.is_empty() || !name.chars().all(|c| c.is_ascii_alphanumeric() || c == '_');
+    let needs_quoting = !name.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_')
+        || !name.chars().all(|c| c.is_ascii_alphanumeric() || c == '_');
     if needs_quoting {
         f.write_str("!\"")?;
         write_escaped_string(f, name)?;
-- 
2.43.0


From b41967d003503f85e5c5e23d6434064608c26185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:56 +0000
Subject: [PATCH 29/33] fix: accept non-finite float attributes, as the printer
 writes them

---
 crates/trunk-ir/src/parser/raw.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/trunk-ir/src/parser/raw.rs b/crates/trunk-ir/src/parser/raw.rs
index bdc61cd..ee59e5d 100644
--- a/crates/trunk-ir/src/parser/raw.rs
+++ b/crates/trunk-ir/src/parser/raw.rs
@@ -329,6 +329,10 @@ pub fn raw_attr_value<'a>(input: &mut &'a str) -> ModalResult<RawAttribute<'a>>
             integer_lit.map(RawAttribute::Int),
             // Type (dialect.name...)
             raw_type.map(RawAttribute::Type),
+            // Non-finite floats, as printed
+            "inf".value(RawAttribute::Float(f64::INFINITY)),
+            "-inf".value(RawAttribute::Float(f64::NEG_INFINITY)),
+            "NaN".value(RawAttribute::Float(f64::NAN)),
         )),
     ))
     .parse_next(input)
-- 
2.43.0


From 5b1818fa573d6e0982ca998ca29c05e191fe525c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:56 +0000
Subject: [PATCH 30/33] fix: do not take the next operation's results for
 operands

An operation without operands followed by one with results was parsed as
having those results as its operands.
---
 crates/trunk-ir/src/parser/raw.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/trunk-ir/src/parser/raw.rs b/crates/trunk-ir/src/parser/raw.rs
index ee59e5d..82f44ef 100644
--- a/crates/trunk-ir/src/parser/raw.rs
+++ b/crates/trunk-ir/src/parser/raw.rs
@@ -4,7 +4,7 @@
 //! It is shared by both the Salsa IR builder and the Arena IR builder.
 
 use winnow::ascii;
-use winnow::combinator::{alt, delimited, opt, preceded, repeat, separated};
+use winnow::combinator::{alt, delimited, opt, peek, preceded, repeat, separated};
 use winnow::prelude::*;
 use winnow::token::{any, one_of, take, take_while};
 
@@ -542,8 +542,8 @@ pub fn raw_operation<'a>(input: &mut &'a str) -> ModalResult<RawOperation<'a>> {
         } else if empty_parens.parse_next(input).is_ok() {
             // Empty parens: no params, no operands
         }
-    } else if input.starts_with('%') {
-        // Operand list
+    } else if input.starts_with('%') && peek(result_list).parse_next(input).is_err() {
+        // Operand list (not the result list of the next operation)
         operands = opt(operand_list).parse_next(input)?.unwrap_or_default();
     }
 
-- 
2.43.0


From 21bc5a44c98dbef0e0eb82136e609f8d49ff444e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:56 +0000
Subject: [PATCH 31/33] fix: keep the attributes of closure.lambda after a
 parenthesised type

They were read back as attributes of the return type.
---
 crates/tribute-ir/src/dialect/closure.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/tribute-ir/src/dialect/closure.rs b/crates/tribute-ir/src/dialect/closure.rs
index 69c8d74..e14bb75 100644
--- a/crates/tribute-ir/src/dialect/closure.rs
+++ b/crates/tribute-ir/src/dialect/closure.rs
@@ -102,6 +102,13 @@ fn print_closure_lambda(
         .map(|(k, v)| (*k, v.clone()))
         .collect();
     if !attrs.is_empty() {
+        // A dict after a parenthesized type would be read as the type's own.
+        if return_ty.is_some_and(|ty| {
+            let data = h.ctx().types.get(ty);
+            !data.params.is_empty() && data.attrs.is_empty()
+        }) {
+            write!(h, " {{}}")?;
+        }
         write!(h, " {{")?;
         for (i, (key, val)) in attrs.iter().enumerate() {
             if i > 0 {
@@ -162,7 +169,7 @@ fn parse_closure_lambda<'a>(
     sym_name: Option<String>,
 ) -> winnow::ModalResult<trunk_ir::parser::raw::RawOperation<'a>> {
     use trunk_ir::parser::raw::*;
-    use winnow::combinator::{delimited, opt, separated};
+    use winnow::combinator::{delimited, opt, peek, separated};
     use winnow::prelude::*;
 
     // "(%param: type, ...)" (optional, may be just "()")
@@ -177,6 +184,7 @@ fn parse_closure_lambda<'a>(
     let ret_ty = opt(return_type).parse_next(input)?;
 
     // " {key = val, ...}" (optional attributes — distinguished from body by lookahead)
+    opt((ws, '{', ws, '}', ws, peek(raw_attr_dict))).parse_next(input)?;
     ws.parse_next(input)?;
     let attributes = if starts_attr_dict(input) {
         raw_attr_dict.parse_next(input)?
-- 
2.43.0


From 1641c2996757bcd1ab3112ea9c66ddf169d9738d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:33 +0000
Subject: [PATCH 32/33] fix: lower i1 constants to 0 or 1 in both back ends

Folding keeps integer attributes sign-extended, so true at width 1 becomes
-1; as 0xff or -1 it no longer agreed with comparison results under xor.
---
 crates/trunk-ir-cranelift-backend/src/passes/arith_to_clif.rs | 3 +++
 crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs      | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/crates/trunk-ir-cranelift-backend/src/passes/arith_to_clif.rs b/crates/trunk-ir-cranelift-backend/src/passes/arith_to_clif.rs
index 7826103..8247e8e 100644
--- a/crates/trunk-ir-cranelift-backend/src/passes/arith_to_clif.rs
+++ b/crates/trunk-ir-cranelift-backend/src/passes/arith_to_clif.rs
@@ -162,6 +162,9 @@ impl RewritePattern for ArithConstPattern {
                     let Some(v) = i64::try_from(v).ok() else {
                         return false;
                     };
+                    // Int attributes are sign-extended: true at width 1 is -1.
+                    let is_i1 = ctx.types.get(raw_result_ty).name == Symbol::new("i1");
+                    let v = if is_i1 { v & 1 } else { v };
                     clif::iconst(ctx, loc, result_ty, v).op_ref()
                 }
                 Attribute::Bool(b) => {
diff --git a/crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs b/crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs
index e2f91bf..7bbc5f9 100644
--- a/crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs
+++ b/crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs
@@ -70,6 +70,9 @@ impl RewritePattern for ArithConstPattern {
         let new_op_ref = match type_name {
             "i32" => match value {
                 Attribute::Int(v) => {
+                    // Int attributes are sign-extended: true at width 1 is -1.
+                    let is_i1 = ctx.types.get(result_ty).name == Symbol::new("i1");
+                    let v = if is_i1 { v & 1 } else { v };
                     wasm_dialect::i32_const(ctx, loc, result_ty, v as i32).op_ref()
                 }
                 Attribute::Bool(b) => {
-- 
2.43.0


From 5d6b64f9d1b5cd94bff4361a56265c8c7ebfc7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:15 +0000
Subject: [PATCH 33/33] fix: keep auto alias names clear of every registered
 alias

A type registered under two names keeps one of them in the printer's
reverse map, so the other was taken to be free and given to an automatic
alias. A nested module repeats the registered definitions, which then
shadow the automatic one, and its text reads back with another type.
---
 crates/trunk-ir/src/printer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/trunk-ir/src/printer.rs b/crates/trunk-ir/src/printer.rs
index 455afcb..883d522 100644
--- a/crates/trunk-ir/src/printer.rs
+++ b/crates/trunk-ir/src/printer.rs
@@ -566,7 +566,10 @@ fn generate_auto_aliases(
     candidates.sort_by(|a, b| b.1.cmp(&a.1).then(b.2.cmp(&a.2)).then(a.3.cmp(&b.3)));
 
     // Name assignment
+    // A type registered under several names keeps only one of them in
+    // `existing`, but all of them are defined in every module's text.
     let mut used_names: HashSet<String> = existing.values().cloned().collect();
+    used_names.extend(ctx.type_aliases().iter().map(|(name, _)| name.to_string()));
     let mut next_num = 0usize;
     let mut result = Vec::new();
 
-- 
2.43.0

