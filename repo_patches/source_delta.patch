From 836a4d25e0a7fd4d1f6c7ace229c0adb68ad1783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:32 +0000
Subject: [PATCH 01/32] fix: integer division and remainder wrap instead of
 panicking on int::MIN and -1

---
 src/std/math.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/std/math.rs b/src/std/math.rs
index c3704c0..3a6e4f9 100644
--- a/src/std/math.rs
+++ b/src/std/math.rs
@@ -567,7 +567,7 @@ pub fn add_to_module(to: &mut Module) {
                 if rhs == 0 {
                     Err(DivisionByZero)
                 } else {
-                    Ok(lhs / rhs)
+                    Ok(lhs.wrapping_div(rhs))
                 }
             },
             ["left", "right"],
@@ -582,7 +582,7 @@ pub fn add_to_module(to: &mut Module) {
                 if rhs == 0 {
                     Err(DivisionByZero)
                 } else {
-                    Ok(lhs.div_euclid(rhs))
+                    Ok(lhs.wrapping_div_euclid(rhs))
                 }
             },
             ["left", "right"],
@@ -597,7 +597,7 @@ pub fn add_to_module(to: &mut Module) {
                 if rhs == 0 {
                     Err(RemainderByZero)
                 } else {
-                    Ok(ops::Rem::rem(lhs, rhs))
+                    Ok(lhs.wrapping_rem(rhs))
                 }
             },
             ["left", "right"],
@@ -612,7 +612,7 @@ pub fn add_to_module(to: &mut Module) {
                 if rhs == 0 {
                     Err(RemainderByZero)
                 } else {
-                    Ok(lhs.rem_euclid(rhs))
+                    Ok(lhs.wrapping_rem_euclid(rhs))
                 }
             },
             ["left", "right"],
-- 
2.43.0


From 6d040e3e01a7b20a6df199bf66a7c1cc8250657a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:32 +0000
Subject: [PATCH 02/32] fix: abs of the smallest int wraps instead of panicking

---
 src/std/math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/std/math.rs b/src/std/math.rs
index 3a6e4f9..aa284ee 100644
--- a/src/std/math.rs
+++ b/src/std/math.rs
@@ -516,7 +516,7 @@ pub fn add_to_module(to: &mut Module) {
             b(BinaryFn::new(Int::wrapping_sub)) as Function,
             b(BinaryFn::new(Int::wrapping_mul)) as Function,
             b(UnaryFn::new(Int::wrapping_neg)) as Function,
-            b(UnaryFn::new(Int::abs)) as Function,
+            b(UnaryFn::new(Int::wrapping_abs)) as Function,
             b(UnaryFn::new(Int::signum)) as Function,
             b(UnaryFn::new(identity::<Int>)) as Function,
         ],
-- 
2.43.0


From 9166fe355f1aa0f0042c44476223c8eaa70ecb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:05 +0000
Subject: [PATCH 03/32] fix: reclaim the boxed variant-storage evidence when
 the HIR interpreter passes it

---
 src/eval.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 89d9eed..2cdb24f 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -1822,10 +1822,11 @@ fn eval_hidden_evidence_arg_node(
         ));
     }
     let value = eval_or_return!(eval_node_with_ctx(arena, node, ctx, locals));
-    if let Some(indirect) = value.as_primitive_ty::<bool>() {
+    if let Some(indirect) = value.as_primitive_ty::<bool>().copied() {
+        value.discard_storage();
         return Ok(ControlFlow::Continue(
             HiddenEvidenceArgValue::VariantPayloadStorage(
-                crate::hir::value::VariantPayloadStorage::from_indirect(*indirect),
+                crate::hir::value::VariantPayloadStorage::from_indirect(indirect),
             ),
         ));
     }
-- 
2.43.0


From 0fce6c772504f51bd19375cfc7d0213c7aeee62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:45 +0000
Subject: [PATCH 04/32] fix: constants 0.0 and -0.0 are distinct to the
 optimizer

Merging them made a + (-0.0) and a * 0.0 lose the sign of zero once optimized.
---
 src/hir/value.rs | 42 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/src/hir/value.rs b/src/hir/value.rs
index 82e7f85..515345d 100644
--- a/src/hir/value.rs
+++ b/src/hir/value.rs
@@ -615,7 +615,7 @@ fn take_nth_discarding_rest(values: B<SVec2<Value>>, index: usize) -> Option<Val
 }
 
 /// A literal value is a native value that can be hashed.
-#[derive(Debug, Clone, PartialEq, Eq, EnumAsInner, Hash)]
+#[derive(Debug, Clone, EnumAsInner)]
 pub enum LiteralValue {
     Native(B<dyn LiteralNativeValue>),
     Tuple(B<SVec2<LiteralValue>>),
@@ -624,6 +624,46 @@ pub enum LiteralValue {
     VariantTag(Ustr),
 }
 
+/// Two literals are equal when they denote the very same value, so that one can stand for the other.
+/// Floats are therefore compared by representation: `0.0` and `-0.0` are equal at run time, but are
+/// not interchangeable.
+impl PartialEq for LiteralValue {
+    fn eq(&self, other: &Self) -> bool {
+        match (self, other) {
+            (Self::Native(left), Self::Native(right)) => {
+                let as_float =
+                    |value: &B<dyn LiteralNativeValue>| -> Option<crate::std::math::Float> {
+                        LiteralNativeValue::as_any(value.as_ref())
+                            .downcast_ref()
+                            .copied()
+                    };
+                match (as_float(left), as_float(right)) {
+                    (Some(left), Some(right)) => {
+                        left.into_inner().to_bits() == right.into_inner().to_bits()
+                    }
+                    _ => left == right,
+                }
+            }
+            (Self::Tuple(left), Self::Tuple(right)) => left == right,
+            (Self::VariantTag(left), Self::VariantTag(right)) => left == right,
+            _ => false,
+        }
+    }
+}
+
+impl Eq for LiteralValue {}
+
+impl Hash for LiteralValue {
+    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
+        std::mem::discriminant(self).hash(state);
+        match self {
+            Self::Native(value) => value.hash(state),
+            Self::Tuple(values) => values.hash(state),
+            Self::VariantTag(tag) => tag.hash(state),
+        }
+    }
+}
+
 /// A pattern literal and runtime value do not have compatible representations.
 /// This indicates invalid typed HIR rather than an ordinary pattern mismatch.
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
-- 
2.43.0


From 9160faf5b0d0ba91dbf9fd863162da1cb7031e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:45 +0000
Subject: [PATCH 05/32] fix: 0.0 and -0.0 hash the same, as they are equal

---
 src/std/math.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/std/math.rs b/src/std/math.rs
index aa284ee..073c89a 100644
--- a/src/std/math.rs
+++ b/src/std/math.rs
@@ -299,7 +299,8 @@ fn hash_int(value: Int, state: &mut Hasher) {
 }
 
 fn hash_float(value: Float, state: &mut Hasher) {
-    state.write_u64(value.into_inner().to_bits());
+    // Equal values must hash the same, and 0.0 equals -0.0: adding 0.0 turns -0.0 into 0.0.
+    state.write_u64((value.into_inner() + 0.0).to_bits());
 }
 
 fn equal_float(lhs: Float, rhs: Float) -> bool {
-- 
2.43.0


From 1f0c738f8cb04ee024c72b48e05e6f1c713044d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:00 +0000
Subject: [PATCH 06/32] fix: reclaim the boxed place a projected member returns
 in the MIR interpreter

---
 src/eval.rs            |  3 ++-
 src/mir/interpreter.rs | 15 +++------------
 2 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 2cdb24f..b0c85b2 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -2749,7 +2749,8 @@ fn eval_addressor_place_args(
     Ok(ControlFlow::Continue(PreparedCallArgs::new(results)))
 }
 
-fn value_into_addressor_place(value: Value) -> Place {
+/// Takes the place out of an addressor's result, reclaiming the result's storage.
+pub(crate) fn value_into_addressor_place(value: Value) -> Place {
     value
         .into_primitive_ty::<PlaceResult>()
         .expect("addressor-place function should return internal PlaceResult")
diff --git a/src/mir/interpreter.rs b/src/mir/interpreter.rs
index e486d6a..9c97e86 100644
--- a/src/mir/interpreter.rs
+++ b/src/mir/interpreter.rs
@@ -24,7 +24,7 @@ use crate::{
     compiler::MirOptimization,
     eval::{
         ControlFlow, EvalCtx, Place, PlaceResult, RuntimeError, ValOrMut,
-        call_value_clone_for_temp, call_value_drop_for_temp,
+        call_value_clone_for_temp, call_value_drop_for_temp, value_into_addressor_place,
     },
     execution::ReferenceInterpreterLimits,
     hir::{
@@ -1406,11 +1406,7 @@ impl<'a> Interpreter<'a> {
                     panic!("unexpected control transfer from a native call")
                 }
             };
-            let place = value
-                .as_primitive_ty::<PlaceResult>()
-                .expect("an addressor member must return a place")
-                .place()
-                .clone();
+            let place = value_into_addressor_place(value);
             Self::bind(slots, def, Binding::Place(place));
             return Ok(());
         }
@@ -1444,12 +1440,7 @@ impl<'a> Interpreter<'a> {
             let out = self.alloc_cell(Value::uninit(), span)?;
             args.push(Binding::Place(out.clone()));
             self.run_function(key, args)?;
-            let place = self
-                .load_copy(&out)
-                .as_primitive_ty::<PlaceResult>()
-                .expect("an AddressorPlace member must return a place through its out-slot")
-                .place()
-                .clone();
+            let place = value_into_addressor_place(self.load_copy(&out));
             Self::bind(slots, def, Binding::Place(place));
             return Ok(());
         }
-- 
2.43.0


From 053e8989feed9829f01beb6cf27c092c29964f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:00 +0000
Subject: [PATCH 07/32] fix: reserve frame slots before call-argument scratch
 storage in the HIR interpreter

A temporary local stored while a dictionary call's or a clone's operand is evaluated was truncated with the scratch
storage, before its block's cleanup ran: its value leaked, and on failure a later read panicked.
---
 src/eval.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eval.rs b/src/eval.rs
index b0c85b2..2b2ce6d 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -1997,6 +1997,7 @@ fn eval_call_dictionary_function_with(
     eval_args_fn: EvalArgsFn,
 ) -> EvalControlFlowResult {
     let dictionary = eval_or_return!(eval_dictionary_metadata_node(arena, node.dictionary, ctx));
+    ctx.reserve_current_frame_slots(locals);
     let temp_start = ctx.environment.len();
     let mut arguments = eval_or_return!(eval_args_fn(
         arena,
@@ -2408,6 +2409,8 @@ fn eval_clone_value(
     if let ResolvedLocalClone::TrivialCopy = clone {
         if node_may_resolve_to_place(arena, node.source) {
             let layout = trivial_copy_layout(ctx, arena[node.source].ty, span);
+            // Place evaluation may initialize HIR-owned locals, which must outlive the truncation.
+            ctx.reserve_current_frame_slots(locals);
             let temp_start = ctx.environment.len();
             let place = eval_or_return!(eval_node_as_place(arena, node.source, ctx, locals));
             let result = copy_trivial_copy_value_from_place_layout(
@@ -2423,6 +2426,7 @@ fn eval_clone_value(
         return eval_node_with_ctx(arena, node.source, ctx, locals);
     }
 
+    ctx.reserve_current_frame_slots(locals);
     let temp_start = ctx.environment.len();
     let source = match eval_or_return!(try_eval_node_as_place(arena, node.source, ctx, locals)) {
         Some(place) => {
@@ -3127,6 +3131,7 @@ fn eval_accessor_until_yield(
         NodeKind::SubscriptApply(app) => AccessorCall::Subscript(app),
         _ => panic!("WithYielded accessor must be an accessor call"),
     };
+    ctx.reserve_current_frame_slots(locals);
     let temp_start = ctx.environment.len();
     let (call, result_convention, arguments, arg_tys) = match call {
         AccessorCall::Static(app) => {
-- 
2.43.0


From 203bb7816e26a51662251e211c1125f7435176af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:56 +0000
Subject: [PATCH 08/32] fix: HIR interpreter cleans up captures and accessor
 temporaries exactly once on failure

---
 src/eval.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 2b2ce6d..cf7c0fb 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -2143,6 +2143,11 @@ fn drop_owned_locals_on_error_from(
         if target_index >= ctx.environment.len() {
             continue;
         }
+        // A captured variable is reached through a place in the closure environment, which the
+        // caller of the closure drops.
+        if !matches!(ctx.environment[target_index], ValOrMut::Val(_)) {
+            continue;
+        }
         let target = local_place(ctx, locals, id);
         if place_contains_uninit(ctx, &target, span)? {
             continue;
@@ -3238,12 +3243,19 @@ fn eval_block_accessor_until_yield(
         }
     }
 
-    match eval_accessor_until_yield(arena, tail, span, ctx, locals)? {
-        ControlFlow::Continue((mut epilogue, place)) => {
+    match eval_accessor_until_yield(arena, tail, span, ctx, locals) {
+        Ok(ControlFlow::Continue((mut epilogue, place))) => {
             epilogue.push_cleanup_scope(&block.cleanup);
             Ok(ControlFlow::Continue((epilogue, place)))
         }
-        ControlFlow::Transfer(transfer) => {
+        Err(err) => {
+            let err = ctx.cleanup_after_error(err, |ctx| {
+                drop_cleanup_locals(ctx, locals, &block.cleanup, arena[tail].span)
+            });
+            ctx.truncate_environment_storage(env_size);
+            Err(err)
+        }
+        Ok(ControlFlow::Transfer(transfer)) => {
             if let Err(err) = drop_cleanup_locals(ctx, locals, &block.cleanup, arena[tail].span) {
                 ctx.truncate_environment_storage(env_size);
                 return Err(err);
-- 
2.43.0


From d210c2d74845d182576a0a06ffb957eb35249a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:34 +0000
Subject: [PATCH 09/32] fix: HIR interpreter does not assert cleanup when a
 poisoning error skipped it

---
 src/eval.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index cf7c0fb..49575b4 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -3494,11 +3494,14 @@ fn eval_block(
                 if let Some(value) = last_value.take() {
                     value.discard_storage();
                 }
-                ctx.assert_no_owned_local_leaks_before_truncate(
-                    locals,
-                    env_size,
-                    arena[*node].span,
-                );
+                // A poisoning error abandons guest cleanup, so locals may remain initialized.
+                if !err.is_poisoning() {
+                    ctx.assert_no_owned_local_leaks_before_truncate(
+                        locals,
+                        env_size,
+                        arena[*node].span,
+                    );
+                }
                 ctx.truncate_environment_storage(env_size);
                 return Err(err);
             }
-- 
2.43.0


From 1dd3ca423e1f2d71c0209dfef963dc6cdca22d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:10 +0000
Subject: [PATCH 10/32] fix: renormalize a string when appended text composes
 with its end (Hangul jamo)

---
 src/std/string.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/std/string.rs b/src/std/string.rs
index 5c17b07..4e107ef 100644
--- a/src/std/string.rs
+++ b/src/std/string.rs
@@ -161,8 +161,9 @@ impl String {
 
     /// Appends already-NFC text, restoring the invariant when the join breaks it.
     ///
-    /// NFC is not closed under concatenation: text beginning with a combining mark composes with
-    /// whatever precedes it, so only that case needs to re-normalize the whole result.
+    /// NFC is not closed under concatenation: text beginning with a combining mark, or with another
+    /// character that can compose with its predecessor (such as a Hangul vowel), may join with
+    /// whatever precedes it, so only these cases need to re-normalize the whole result.
     fn push_normalized(&mut self, value: &str) {
         debug_assert!(
             unicode_normalization::is_nfc(value),
@@ -171,7 +172,7 @@ impl String {
         let needs_normalization = value
             .chars()
             .next()
-            .map(unicode_normalization::char::is_combining_mark)
+            .map(Self::may_interact_with_preceding)
             .unwrap_or(false);
 
         if needs_normalization {
@@ -181,6 +182,13 @@ impl String {
         }
     }
 
+    /// Whether appending NFC text that starts with `c` may break the NFC form of the result.
+    fn may_interact_with_preceding(c: char) -> bool {
+        unicode_normalization::char::is_combining_mark(c)
+            || unicode_normalization::is_nfc_quick(std::iter::once(c))
+                != unicode_normalization::IsNormalized::Yes
+    }
+
     pub fn concat(l: &Self, r: &Self) -> Self {
         Self(Rc::new(l.0.chars().chain(r.0.chars()).nfc().collect()))
     }
-- 
2.43.0


From ce949cfab65eb8d56753a9b0cdd01bba9afd3dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:34 +0000
Subject: [PATCH 11/32] fix: derived Deserialize calls are fallible, so MIR
 unwinds their failures instead of panicking

---
 src/hir/value_dispatch.rs        |  6 ++++--
 src/std/default.rs               |  1 +
 src/std/product_value_deriver.rs |  1 +
 src/std/serde.rs                 | 17 ++++++++++++++---
 src/std/value.rs                 |  4 ++++
 5 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/hir/value_dispatch.rs b/src/hir/value_dispatch.rs
index 6514f1f..343bc28 100644
--- a/src/hir/value_dispatch.rs
+++ b/src/hir/value_dispatch.rs
@@ -65,6 +65,7 @@ pub(crate) fn materialize_static_string(
         function,
         [(representation, static_str_type())],
         string_type(),
+        EffType::empty(),
         span,
     )
 }
@@ -221,10 +222,11 @@ pub(crate) fn static_apply_generated_with_locals(
     function: FunctionId,
     arguments: impl IntoIterator<Item = (NodeId, Type)>,
     ret_ty: Type,
+    effects: EffType,
     span: Location,
 ) -> Result<NodeId, InternalCompilationError> {
     let (mut arguments, args_tys): (Vec<_>, Vec<_>) = arguments.into_iter().unzip();
-    let fn_ty = FnType::new_by_val(args_tys, ret_ty, EffType::empty());
+    let fn_ty = FnType::new_by_val(args_tys, ret_ty, effects.clone());
     let prepared = prepare_generated_call_arguments_with_locals(
         arena,
         locals,
@@ -242,7 +244,7 @@ pub(crate) fn static_apply_generated_with_locals(
             span,
         ),
         ret_ty,
-        EffType::empty(),
+        effects,
         span,
     ));
 
diff --git a/src/std/default.rs b/src/std/default.rs
index ec96952..e571da9 100644
--- a/src/std/default.rs
+++ b/src/std/default.rs
@@ -96,6 +96,7 @@ impl Deriver for EnumDefaultDeriver {
                 function,
                 std::iter::empty(),
                 payload_ty,
+                EffType::empty(),
                 span,
             )?;
             n(&mut body_arena, variant(default_variant, payload), ty)
diff --git a/src/std/product_value_deriver.rs b/src/std/product_value_deriver.rs
index eb53ad4..974829d 100644
--- a/src/std/product_value_deriver.rs
+++ b/src/std/product_value_deriver.rs
@@ -81,6 +81,7 @@ impl Deriver for ProductValueDeriver {
                     function,
                     std::iter::empty(),
                     member_ty,
+                    EffType::empty(),
                     span,
                 )
             };
diff --git a/src/std/serde.rs b/src/std/serde.rs
index f49154b..362db33 100644
--- a/src/std/serde.rs
+++ b/src/std/serde.rs
@@ -95,6 +95,7 @@ fn build_serialize_projection(
         function,
         [(project_node, member_ty)],
         data_value_type(),
+        fallible(),
         span,
     )
 }
@@ -393,6 +394,7 @@ impl Deriver for AlgebraicTypeDeserializeDeriver {
                 function,
                 [(data, data_value_type())],
                 ty,
+                fallible(),
                 Location::new_synthesized(),
             )
         };
@@ -493,7 +495,7 @@ impl Deriver for AlgebraicTypeDeserializeDeriver {
                             FnArgType::new_by_val(int_type()),
                         ],
                         data_value_ty,
-                        EffType::empty(),
+                        fallible(),
                     );
                     let mut arguments = arguments;
                     let prepared = prepare_generated_call_arguments_with_locals(
@@ -605,6 +607,7 @@ impl Deriver for AlgebraicTypeDeserializeDeriver {
                         function,
                         [(get_entry, data_value_type())],
                         ty,
+                        fallible(),
                         Location::new_synthesized(),
                     )
                 })
@@ -728,7 +731,7 @@ pub fn add_to_module(to: &mut Module) {
                 FnType::new_by_val(
                     [var0_ty],
                     data_value_type(),
-                    EffType::single_primitive(PrimitiveEffect::Fallible),
+                    fallible(),
                 ),
                 ["self"],
                 "Serialize this value into a data value.",
@@ -749,7 +752,7 @@ pub fn add_to_module(to: &mut Module) {
                 FnType::new_by_val(
                     [data_value_type()],
                     var0_ty,
-                    EffType::single_primitive(PrimitiveEffect::Fallible),
+                    fallible(),
                 ),
                 ["data"],
                 "Deserialize a data value into a value of this type.",
@@ -762,6 +765,11 @@ pub fn add_to_module(to: &mut Module) {
     // Trait implementations for basic types are in the prelude.
 }
 
+/// Effects of the calls in derived implementations: conversions and lookups can raise a source failure.
+fn fallible() -> EffType {
+    EffType::single_primitive(PrimitiveEffect::Fallible)
+}
+
 // Build a node that fetches the panic function node from the trait solver, importing it if necessary.
 fn build_panic(
     arena: &mut NodeArena,
@@ -780,6 +788,7 @@ fn build_panic(
         function,
         [(build_string, string_type())],
         Type::never(),
+        fallible(),
         span,
     )
 }
@@ -861,6 +870,7 @@ fn build_data_value_to_x(
         function,
         [(data_value_node, data_value_type())],
         ret_ty,
+        fallible(),
         span,
     )
 }
@@ -892,6 +902,7 @@ fn build_expect_data_value_record_entry(
         function,
         [(fields, payload_ty), (name_node, string_type())],
         data_value_type(),
+        fallible(),
         span,
     )
 }
diff --git a/src/std/value.rs b/src/std/value.rs
index 1fddd7f..1f9e291 100644
--- a/src/std/value.rs
+++ b/src/std/value.rs
@@ -980,6 +980,7 @@ pub(crate) fn function_value_method_function(
                 hasher_write_static_str,
                 [(state, hasher_ty), (marker, static_str_type())],
                 unit_ty,
+                EffType::empty(),
                 span,
             )?;
             let unit = alloc_synth_node(&mut arena, native(()), unit_ty);
@@ -1103,6 +1104,7 @@ fn derive_structural_text_body(
                     string_push_static_str,
                     [(target, string_type()), (piece, static_str_type())],
                     Type::unit(),
+                    EffType::empty(),
                     span,
                 )?,
                 TextPiece::String(piece) => static_apply_generated_with_locals(
@@ -1112,6 +1114,7 @@ fn derive_structural_text_body(
                     string_push_str,
                     [(target, string_type()), (piece, string_type())],
                     Type::unit(),
+                    EffType::empty(),
                     span,
                 )?,
             };
@@ -1676,6 +1679,7 @@ fn derive_value_hash_body(
             hasher_write_static_str,
             [(state, hasher_ty), (value, static_str_type())],
             unit_ty,
+            EffType::empty(),
             span,
         )
     };
-- 
2.43.0


From f202b7fd4cce4e6864f71cbde0423f9e6a57beb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:24 +0000
Subject: [PATCH 12/32] fix: sets and maps use their own Value implementations,
 so equality and hashing ignore insertion history

The blanket impls were never selected outside std: the set's needs a Seq whose effect is
bound only by that solution, and the map's compared entries of the wrong type, so the
structural derivation was used instead. Their drops now release the buckets, and map
entries are dropped field by field.
---
 src/std/prelude/hash_collections.fer | 45 +++++-----------------------
 src/types/trait_solver.rs            |  6 +++-
 2 files changed, 13 insertions(+), 38 deletions(-)

diff --git a/src/std/prelude/hash_collections.fer b/src/std/prelude/hash_collections.fer
index c94b778..c327566 100644
--- a/src/std/prelude/hash_collections.fer
+++ b/src/std/prelude/hash_collections.fer
@@ -179,7 +179,9 @@ where
 		}
 	}
 
-	fn drop(target: &mut HashSet<V>) {}
+	fn drop(target: &mut HashSet<V>) {
+		target.buckets = [];
+	}
 }
 
 impl<V> Inspect for HashSet<V>
@@ -203,39 +205,6 @@ where
 	value: V,
 }
 
-impl<K, V> Value for HashMapEntry<K, V>
-where
-	K: Value,
-	V: Value
-{
-	fn eq(left: HashMapEntry<K, V>, right: HashMapEntry<K, V>) -> bool {
-		eq(left.key, right.key) and eq(left.value, right.value)
-	}
-
-	fn to_string(value: HashMapEntry<K, V>) -> string {
-		let mut rendered = to_string(value.key);
-		string_push_str(rendered, " => ");
-		string_push_str(rendered, to_string(value.value));
-		rendered
-	}
-
-	fn hash(value: HashMapEntry<K, V>, state: &mut hasher) {
-		hasher_write_string(state, "hash_map_entry");
-		hash(value.key, state);
-		hash(value.value, state);
-	}
-
-	fn clone(source: HashMapEntry<K, V>) -> HashMapEntry<K, V> {
-		HashMapEntry {
-			hash: source.hash,
-			key: source.key,
-			value: source.value,
-		}
-	}
-
-	fn drop(target: &mut HashMapEntry<K, V>) {}
-}
-
 impl<K, V> Inspect for HashMapEntry<K, V>
 where
 	K: Inspect,
@@ -356,12 +325,12 @@ where
     }
 }
 
-fn hash_map_contains_entry<K, V>(collection: HashMap<K, V>, entry: HashMapEntry<K, V>) -> bool
+fn hash_map_contains_entry<K, V>(collection: HashMap<K, V>, entry: (K, V)) -> bool
 where
     K: Value,
     V: Value
 {
-    map_contains_key_value(collection, entry.key, entry.value)
+    map_contains_key_value(collection, entry.0, entry.1)
 }
 
 impl<K, V> Iterator for <Self = HashMapIterator<K, V> |-> Item = (K, V)>
@@ -477,7 +446,9 @@ where
 		}
 	}
 
-	fn drop(target: &mut HashMap<K, V>) {}
+	fn drop(target: &mut HashMap<K, V>) {
+		target.buckets = [];
+	}
 }
 
 impl<K, V> Inspect for HashMap<K, V>
diff --git a/src/types/trait_solver.rs b/src/types/trait_solver.rs
index 8fdb8ef..ff06842 100644
--- a/src/types/trait_solver.rs
+++ b/src/types/trait_solver.rs
@@ -2899,7 +2899,11 @@ impl<'a> TraitSolver<'a> {
                         .output_effs
                         .iter()
                         .zip(output_effs.iter())
-                        .all(|(solved_eff, constraint_eff)| solved_eff == constraint_eff))
+                        .all(|(solved_eff, constraint_eff)| {
+                            // A variable left in the constraint is bound by nothing but this
+                            // solution.
+                            solved_eff == constraint_eff || constraint_eff.has_variables()
+                        }))
             {
                 return Ok(None);
             }
-- 
2.43.0


From aa1d22a0111940fdc47c89419287442072bfbc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:29 +0000
Subject: [PATCH 13/32] fix: generic impl methods keep the effects of their
 where clauses, and effect arguments match the method's quantifiers

An effect bound only by a constraint of the impl was erased in method bodies, so chained iterator
adaptors lowered a fallible next() as an infallible MIR call, which aborts the host when it fails.
Blanket thunks recorded effect arguments against the trait signature's quantifiers rather than the
method's own, so specialization dropped error edges.
---
 src/hir/emit_functions.rs  |  8 ++++++--
 src/hir/emit_hir.rs        |  4 +++-
 src/hir/emit_value_impl.rs |  2 +-
 src/types/trait_solver.rs  | 34 ++++++++++------------------------
 4 files changed, 20 insertions(+), 28 deletions(-)

diff --git a/src/hir/emit_functions.rs b/src/hir/emit_functions.rs
index ea9c43c..228aa79 100644
--- a/src/hir/emit_functions.rs
+++ b/src/hir/emit_functions.rs
@@ -1273,11 +1273,13 @@ where
             &local_fns,
             &mut ty_inf,
         );
+        ty_inf.normalize_remaining_constraints();
         default_output_effects_in_functions(
             output,
             &mut pending_functions,
             &associated_lambdas,
             &local_fns,
+            ty_inf.remaining_constraints(),
         );
 
         // Resolve input and output types and output effects.
@@ -1457,8 +1459,9 @@ where
                 let descr = &mut output.functions[function_id.as_index()];
                 descr.definition.ty_scheme.ty = descr.definition.ty_scheme.ty.map(&mut mapper);
                 descr.definition.ty_scheme.ty_quantifiers = quantifiers.clone();
-                let eff_quantifiers = descr.definition.ty_scheme.ty.input_effect_vars();
-                descr.definition.ty_scheme.eff_quantifiers = eff_quantifiers;
+                descr.definition.ty_scheme.eff_quantifiers = (0..trait_output.eff_var_count)
+                    .map(EffectVar::new)
+                    .collect();
                 descr.definition.ty_scheme.constraints = trait_output.constraints.clone();
                 let pending = pending_functions
                     .get_mut(&function_id)
@@ -1761,6 +1764,7 @@ where
             &mut pending_functions,
             &associated_lambdas,
             &local_fns,
+            &[],
         );
 
         // Safety check: make sure that there are no unused constraints.
diff --git a/src/hir/emit_hir.rs b/src/hir/emit_hir.rs
index 49afeb3..cc410dc 100644
--- a/src/hir/emit_hir.rs
+++ b/src/hir/emit_hir.rs
@@ -370,6 +370,7 @@ pub(super) fn default_output_effects_in_functions(
     pending_functions: &mut PendingModuleFunctions,
     associated_lambdas: &FxHashMap<LocalFunctionId, Vec<LocalFunctionId>>,
     function_ids: &[LocalFunctionId],
+    shared_constraints: &[PubTypeConstraint],
 ) {
     for &id in function_ids {
         let effect_subst: FxHashMap<_, _> = {
@@ -382,7 +383,8 @@ pub(super) fn default_output_effects_in_functions(
                 .into_iter()
                 .collect::<FxHashSet<_>>();
             let mut retained_effect_vars = descr.definition.ty_scheme.ty.input_effect_vars();
-            for constraint in &descr.definition.ty_scheme.constraints {
+            let constraints = &descr.definition.ty_scheme.constraints;
+            for constraint in constraints.iter().chain(shared_constraints) {
                 let constraint_mentions_public_signature_ty = constraint
                     .inner_ty_vars()
                     .into_iter()
diff --git a/src/hir/emit_value_impl.rs b/src/hir/emit_value_impl.rs
index 30f553b..454c5bd 100644
--- a/src/hir/emit_value_impl.rs
+++ b/src/hir/emit_value_impl.rs
@@ -405,7 +405,7 @@ pub(super) fn emit_auto_value_impls(
             definition.ty_scheme.ty_quantifiers = quantifiers.clone();
             // Keep each generated method's effect quantifiers aligned with the impl header's
             // `eff_var_count`: effects occurring only in constraints do not belong to either.
-            definition.ty_scheme.eff_quantifiers = definition.ty_scheme.ty.input_effect_vars();
+            definition.ty_scheme.eff_quantifiers = (0..eff_var_count).map(EffectVar::new).collect();
             definition.ty_scheme.constraints = constraints.clone();
             let runtime_arg_count = definition.arg_names.len();
             let function =
diff --git a/src/types/trait_solver.rs b/src/types/trait_solver.rs
index ff06842..458c4bc 100644
--- a/src/types/trait_solver.rs
+++ b/src/types/trait_solver.rs
@@ -11,7 +11,6 @@ use std::{borrow::Cow, iter::repeat, mem, rc::Rc};
 
 use crate::{FxHashMap, FxHashSet, Modules, types::type_scheme::PubTypeConstraint};
 
-use itertools::Itertools;
 use ustr::Ustr;
 
 use crate::{
@@ -2349,15 +2348,15 @@ impl<'a> TraitSolver<'a> {
     }
 
     fn blanket_method_inst_data(
-        generic_definition: &CallableDefinition,
         concrete_definition: &CallableDefinition,
         blanket_ty_var_count: u32,
+        blanket_eff_var_count: u32,
         blanket_instantiation: &InstSubst,
         runtime_requirements: Vec<DictionaryReq>,
         fn_span: Location,
     ) -> Result<FnInstData, InternalCompilationError> {
-        // Blanket registration guarantees that every method callable quantifies all blanket type
-        // variables in canonical numeric order, including variables visible only in impl
+        // Blanket registration guarantees that every method callable quantifies all blanket type and
+        // effect variables in canonical numeric order, including variables visible only in impl
         // constraints and therefore absent from the reconstructed trait method signature.
         let ty_args = (0..blanket_ty_var_count)
             .map(TypeVar::new)
@@ -2377,15 +2376,12 @@ impl<'a> TraitSolver<'a> {
             })
             .collect::<Result<Vec<_>, _>>()?;
         let close_effect_rows = concrete_definition.ty_scheme.ty.is_constant();
-        let eff_args = generic_definition
-            .ty_scheme
-            .eff_quantifiers
-            .iter()
-            .sorted()
+        let eff_args = (0..blanket_eff_var_count)
+            .map(EffectVar::new)
             .map(|quantifier| {
                 let effect = blanket_instantiation
                     .1
-                    .get(quantifier)
+                    .get(&quantifier)
                     .cloned()
                     .ok_or_else(|| {
                         internal_compilation_error!(Internal {
@@ -3237,17 +3233,11 @@ impl<'a> TraitSolver<'a> {
                         trait_def_from_parts(self.current_type_items, self.others, trait_id);
                     let definitions =
                         trait_def.instantiate_for_tys(input_tys, &output_tys, &output_effs);
-                    let generic_definitions = trait_def.instantiate_for_tys(
-                        imp_input_tys,
-                        &imp_output_tys,
-                        &imp_output_effs,
-                    );
                     let gen_functions = imp.methods.clone(); // clone to avoid borrowing issues
                     let mut methods = Vec::with_capacity(gen_functions.len());
                     let mut tys = Vec::with_capacity(gen_functions.len());
-                    for (method_index, ((fn_id, generic_def), def)) in gen_functions
+                    for (method_index, (fn_id, def)) in gen_functions
                         .iter()
-                        .zip(generic_definitions)
                         .zip(definitions)
                         .enumerate()
                     {
@@ -3266,9 +3256,9 @@ impl<'a> TraitSolver<'a> {
                                 None => self.function_id(self.current_type_items.module.id, *fn_id),
                             };
                             let inst_data = Self::blanket_method_inst_data(
-                                &generic_def,
                                 &def,
                                 imp_ty_var_count,
+                                imp_eff_var_count,
                                 &blanket_instantiation,
                                 if has_projection_requirement {
                                     runtime_requirements.clone()
@@ -3463,22 +3453,18 @@ impl<'a> TraitSolver<'a> {
                 let definitions =
                     trait_def_from_parts(self.current_type_items, self.others, trait_id)
                         .instantiate_for_tys(input_tys, &output_tys, &output_effs);
-                let generic_definitions =
-                    trait_def_from_parts(self.current_type_items, self.others, trait_id)
-                        .instantiate_for_tys(imp_input_tys, &imp_output_tys, &imp_output_effs);
                 let code_entries = gen_functions
                     .iter()
-                    .zip(generic_definitions)
                     .zip(definitions)
-                    .map(|((fn_id, generic_def), def)| {
+                    .map(|(fn_id, def)| {
                         let function_id = match imp_module_id {
                             Some(module_id) => self.function_id(module_id, *fn_id),
                             None => self.function_id(self.current_type_items.module.id, *fn_id),
                         };
                         let inst_data = Self::blanket_method_inst_data(
-                            &generic_def,
                             &def,
                             imp_ty_var_count,
+                            imp_eff_var_count,
                             &blanket_instantiation,
                             if has_projection_requirement {
                                 runtime_requirements.clone()
-- 
2.43.0


From 23dfafa01cd78fb3f32715e5ec05f445101af802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:09 +0000
Subject: [PATCH 14/32] fix: effect rows inside the type arguments of an impl
 method close with its signature

Matching an open row leaves a tail in the recorded type or effect arguments of a
materialized impl method. When the tail does not occur in the target signature the
method's MIR recorded arguments its call site disagreed with: copying
[|| idiv(1, 1)] tripped the MIR verifier.
---
 src/types/trait_solver.rs | 44 +++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/types/trait_solver.rs b/src/types/trait_solver.rs
index 458c4bc..40be23e 100644
--- a/src/types/trait_solver.rs
+++ b/src/types/trait_solver.rs
@@ -2358,10 +2358,24 @@ impl<'a> TraitSolver<'a> {
         // Blanket registration guarantees that every method callable quantifies all blanket type and
         // effect variables in canonical numeric order, including variables visible only in impl
         // constraints and therefore absent from the reconstructed trait method signature.
+        // Open-row matching may retain an unconstrained tail, in an effect argument or inside a type
+        // argument. A tail absent from the target signature is proved pure by it; the variables of
+        // an effect-polymorphic target must be retained. This includes quantifiers occurring only
+        // in impl constraints: after constraint solving, no other caller-provided binding can
+        // remain.
+        let signature_effect_vars = concrete_definition.ty_scheme.ty.inner_effect_vars();
+        let close_rows = |open_rows: FxHashSet<EffectVar>| {
+            let closed_rows = open_rows
+                .into_iter()
+                .filter(|var| !signature_effect_vars.contains(var))
+                .map(|var| (var, EffType::empty()))
+                .collect::<FxHashMap<_, _>>();
+            (!closed_rows.is_empty()).then(|| (FxHashMap::default(), closed_rows))
+        };
         let ty_args = (0..blanket_ty_var_count)
             .map(TypeVar::new)
             .map(|quantifier| {
-                blanket_instantiation
+                let ty = blanket_instantiation
                     .0
                     .get(&quantifier)
                     .copied()
@@ -2372,10 +2386,13 @@ impl<'a> TraitSolver<'a> {
                             ),
                             span: fn_span,
                         })
-                    })
+                    })?;
+                Ok(match close_rows(ty.inner_effect_vars()) {
+                    Some(closed_rows) => ty.map(&mut BitmapInstantiationMapper::new(&closed_rows)),
+                    None => ty,
+                })
             })
             .collect::<Result<Vec<_>, _>>()?;
-        let close_effect_rows = concrete_definition.ty_scheme.ty.is_constant();
         let eff_args = (0..blanket_eff_var_count)
             .map(EffectVar::new)
             .map(|quantifier| {
@@ -2391,15 +2408,12 @@ impl<'a> TraitSolver<'a> {
                             span: fn_span,
                         })
                     })?;
-                // Open-row matching may retain an unconstrained tail. A fully concrete target
-                // signature proves that tail is pure; an effect-polymorphic target must retain it.
-                // This includes quantifiers occurring only in impl constraints: after constraint
-                // solving reaches a ground method, no caller-provided binding can remain.
-                Ok(if close_effect_rows {
-                    EffType::multiple_primitive(&effect.inner_non_vars())
-                } else {
-                    effect
-                })
+                Ok(
+                    match close_rows(effect.inner_vars().into_iter().collect()) {
+                        Some((_, closed_rows)) => effect.instantiate(&closed_rows),
+                        None => effect,
+                    },
+                )
             })
             .collect::<Result<Vec<_>, _>>()?;
         Ok(FnInstData::new(runtime_requirements, ty_args, eff_args))
@@ -3236,10 +3250,8 @@ impl<'a> TraitSolver<'a> {
                     let gen_functions = imp.methods.clone(); // clone to avoid borrowing issues
                     let mut methods = Vec::with_capacity(gen_functions.len());
                     let mut tys = Vec::with_capacity(gen_functions.len());
-                    for (method_index, (fn_id, def)) in gen_functions
-                        .iter()
-                        .zip(definitions)
-                        .enumerate()
+                    for (method_index, (fn_id, def)) in
+                        gen_functions.iter().zip(definitions).enumerate()
                     {
                         let method_index = TraitMethodIndex::from_index(method_index);
                         // Build the concrete function type and hash its signature.
-- 
2.43.0


From e64234e9cbe5b87e63f7ea6647e89d5ca61b4d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:09 +0000
Subject: [PATCH 15/32] fix: named types holding functions of an open type use
 their own Value impl

An array whose element functions mention a type or effect variable was given
structural Value code, which clones and drops the array's buffer as a value:
'fn f() { let fs = [|| 1]; let g = fs; g[0]() }' panicked the compiler, and
copying an array of closures with an open effect row panicked the host.
---
 src/hir/value_dispatch.rs |  2 +-
 src/std/value.rs          | 42 +++++++++++++++++++++++++++++----------
 2 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/hir/value_dispatch.rs b/src/hir/value_dispatch.rs
index 343bc28..9f1d298 100644
--- a/src/hir/value_dispatch.rs
+++ b/src/hir/value_dispatch.rs
@@ -135,7 +135,7 @@ fn resolve_value_method_dispatch(
             methods[usize::from(method_index)],
         )));
     }
-    if ty.is_constant() {
+    if ty.is_trait_input_resolved() {
         let value_trait_id = ctx.trait_solver.std_trait_id(VALUE_TRAIT_NAME);
         return Ok(ResolvedValueMethodDispatch::Static(
             ctx.trait_solver
diff --git a/src/std/value.rs b/src/std/value.rs
index 1f9e291..8c3f437 100644
--- a/src/std/value.rs
+++ b/src/std/value.rs
@@ -442,9 +442,12 @@ pub(crate) fn type_has_static_layout(ty: Type, span: Location, env: &impl TypeLa
 
 /// Return whether all unresolved variables in `ty` appear only in function types.
 /// `active` is the current recursion stack used to stop on recursive types.
+/// `named_type_params` tells whether the parameters of a named type are looked into, or any
+/// variable in them counts as unresolved.
 fn value_type_is_resolved_ignoring_function_surface(
     ty: Type,
     active: &mut FxHashSet<Type>,
+    named_type_params: bool,
 ) -> bool {
     if ty.is_constant() {
         return true;
@@ -461,7 +464,11 @@ fn value_type_is_resolved_ignoring_function_surface(
             let member_tys = member_tys.clone();
             drop(ty_data);
             let resolved = member_tys.into_iter().all(|member_ty| {
-                value_type_is_resolved_ignoring_function_surface(member_ty, active)
+                value_type_is_resolved_ignoring_function_surface(
+                    member_ty,
+                    active,
+                    named_type_params,
+                )
             });
             active.remove(&ty);
             return resolved;
@@ -472,9 +479,13 @@ fn value_type_is_resolved_ignoring_function_surface(
                 .map(|(_, field_ty)| *field_ty)
                 .collect::<Vec<_>>();
             drop(ty_data);
-            let resolved = field_tys
-                .into_iter()
-                .all(|field_ty| value_type_is_resolved_ignoring_function_surface(field_ty, active));
+            let resolved = field_tys.into_iter().all(|field_ty| {
+                value_type_is_resolved_ignoring_function_surface(
+                    field_ty,
+                    active,
+                    named_type_params,
+                )
+            });
             active.remove(&ty);
             return resolved;
         }
@@ -485,7 +496,11 @@ fn value_type_is_resolved_ignoring_function_surface(
                 .collect::<Vec<_>>();
             drop(ty_data);
             let resolved = payload_tys.into_iter().all(|payload_ty| {
-                value_type_is_resolved_ignoring_function_surface(payload_ty, active)
+                value_type_is_resolved_ignoring_function_surface(
+                    payload_ty,
+                    active,
+                    named_type_params,
+                )
             });
             active.remove(&ty);
             return resolved;
@@ -493,9 +508,14 @@ fn value_type_is_resolved_ignoring_function_surface(
         Named(named) => {
             let param_tys = named.params.clone();
             drop(ty_data);
-            let resolved = param_tys
-                .into_iter()
-                .all(|param_ty| value_type_is_resolved_ignoring_function_surface(param_ty, active));
+            let resolved = named_type_params
+                && param_tys.into_iter().all(|param_ty| {
+                    value_type_is_resolved_ignoring_function_surface(
+                        param_ty,
+                        active,
+                        named_type_params,
+                    )
+                });
             active.remove(&ty);
             return resolved;
         }
@@ -517,16 +537,18 @@ fn value_type_is_resolved_ignoring_function_surface(
 /// dynamically sized has no static layout, while a resolved type may still lack one for reasons
 /// only the layout computation can see.
 pub(crate) fn value_type_needs_layout_witness(ty: Type) -> bool {
-    !value_type_is_resolved_ignoring_function_surface(ty, &mut FxHashSet::default())
+    !value_type_is_resolved_ignoring_function_surface(ty, &mut FxHashSet::default(), true)
 }
 
 /// True when every unresolved part of `ty` appears under a function type.
 /// Function `Value` impls are compiler-provided from their hidden closure env,
 /// so these types can use generated structural `Value` code without requiring a
 /// user-visible dictionary for the function surface.
+/// A named type has a `Value` impl of its own, which need not follow its structure: with a
+/// variable among its parameters, that impl is selected as any other is.
 pub(crate) fn is_function_surface_only_value_type(ty: Type) -> bool {
     !ty.is_constant()
-        && value_type_is_resolved_ignoring_function_surface(ty, &mut FxHashSet::default())
+        && value_type_is_resolved_ignoring_function_surface(ty, &mut FxHashSet::default(), false)
 }
 
 /// Return whether this is `Value` for a type whose unresolved variables occur only inside function types.
-- 
2.43.0


From 6f7fb44da01b97ccb405512f7c46d6a0611d9e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:09 +0000
Subject: [PATCH 16/32] fix: a projection subscript may be declared on a
 generic record type

The check against the record's own fields instantiated the record while holding
the lock on the type universe, and panicked.
---
 src/hir/emit_subscripts.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hir/emit_subscripts.rs b/src/hir/emit_subscripts.rs
index 6bfe30f..f8f5983 100644
--- a/src/hir/emit_subscripts.rs
+++ b/src/hir/emit_subscripts.rs
@@ -204,7 +204,7 @@ fn reject_accessible_structural_projection_conflict(
     field: ast::UstrSpan,
     receiver_span: Location,
 ) -> Result<(), InternalCompilationError> {
-    let TypeKind::Named(named) = &*receiver_ty.data() else {
+    let TypeKind::Named(named) = receiver_ty.data().clone() else {
         return Ok(());
     };
     let type_def = env.type_def(named.def);
-- 
2.43.0


From 2e3dc99e32dd694428fcc3e787a1928ca83115ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:52 +0000
Subject: [PATCH 17/32] fix: a field access typed late uses the projection its
 receiver defines

A field access whose receiver type was still unknown when it was inferred, such as
pair.0.value, was elaborated as a plain record field: it bypassed the projection
subscript of that name, or panicked when the record had no such field.
---
 src/hir/elaboration.rs           | 64 ++++++++++++++++++++++++++++----
 src/hir/match.rs                 |  3 +-
 src/hir/mod.rs                   |  2 +
 src/types/type_inference/expr.rs | 12 +++++-
 4 files changed, 71 insertions(+), 10 deletions(-)

diff --git a/src/hir/elaboration.rs b/src/hir/elaboration.rs
index c76afc6..65a9652 100644
--- a/src/hir/elaboration.rs
+++ b/src/hir/elaboration.rs
@@ -53,7 +53,8 @@ use crate::{
     types::effects::{EffType, Effect, EffectsInstSubst, no_effects},
     types::mutability::MutType,
     types::r#type::{
-        CallImplType, CallResultConvention, FnArgType, FnType, Type, TypeKind, TypeVar,
+        CallImplType, CallResultConvention, FnArgType, FnType, SubscriptType, Type, TypeKind,
+        TypeVar,
     },
     types::type_mapper::BitmapInstantiationMapper,
 };
@@ -1244,25 +1245,47 @@ impl<'a, 'w, 'd, 'sr, 'sm> HirElaboration<'a, 'w, 'd, 'sr, 'sm> {
         else {
             panic!("Projection subscript dictionary index should reference projection evidence");
         };
+        let subscript_ty = subscript_ty.clone();
+        let subscript = self.alloc_elaborated_node(
+            LoadSubscriptEvidence(hir::LoadSubscriptEvidence { extra_parameter }),
+            Type::subscript_type(subscript_ty.clone()),
+            no_effects(),
+            node_span,
+        );
+        self.projection_subscript_field_access(
+            child,
+            field_name,
+            access_mode,
+            subscript,
+            subscript_ty,
+            node_ty,
+        )
+    }
+
+    /// Emit a field access as the application of the projection subscript `subscript`.
+    fn projection_subscript_field_access(
+        &mut self,
+        child: ENodeId,
+        field_name: Ustr,
+        access_mode: SubscriptMemberKind,
+        subscript: ENodeId,
+        subscript_ty: SubscriptType,
+        node_ty: Type,
+    ) -> NodeKind<Elaborated> {
+        use NodeKind::*;
         let member_ty = match access_mode {
             SubscriptMemberKind::Ref => subscript_ty.ref_member.as_ref(),
             SubscriptMemberKind::Mut => subscript_ty.mut_member.as_ref(),
         }
         .unwrap_or_else(|| {
             panic!(
-                "Projection evidence for field \"{field_name}\" should contain the selected member"
+                "Projection subscript for field \"{field_name}\" should contain the selected member"
             )
         });
         let mut inst_fn_args = subscript_ty.args.clone();
         if access_mode.mut_member() {
             inst_fn_args[0].mut_ty = crate::types::mutability::MutType::mutable();
         }
-        let subscript = self.alloc_elaborated_node(
-            LoadSubscriptEvidence(hir::LoadSubscriptEvidence { extra_parameter }),
-            Type::subscript_type(subscript_ty.clone()),
-            no_effects(),
-            node_span,
-        );
         let passing = if access_mode.mut_member() {
             ArgConvention::MutableRef
         } else {
@@ -2262,6 +2285,31 @@ impl<'a, 'w, 'd, 'sr, 'sm> HirElaboration<'a, 'w, 'd, 'sr, 'sm> {
                 let field_name = field_access.field;
                 let child = self.elaborate_node(src, child_id)?;
                 let child_ty = src[child_id].ty;
+                // The receiver was unknown when this access was inferred, and turned out to be a
+                // type with a projection of its own.
+                if field_access.requirement.accepts_user_defined_projection()
+                    && let Some(key) = ProjectionKey::nominal_for_receiver_ty(child_ty, field_name)
+                    && let Some(subscript) = self.ctx.trait_solver.projection_subscript_id(key)
+                    && let Some(subscript_ty) = self
+                        .ctx
+                        .trait_solver
+                        .projection_subscript_type(child_ty, field_name)
+                {
+                    let subscript = self.elaborate_synthetic_node(
+                        get_projection_subscript_node_kind(subscript, field_name, node_span),
+                        Type::subscript_type(subscript_ty.clone()),
+                        no_effects(),
+                        node_span,
+                    )?;
+                    return Ok(self.projection_subscript_field_access(
+                        child,
+                        field_name,
+                        field_access.access_mode,
+                        subscript,
+                        subscript_ty,
+                        node_ty,
+                    ));
+                }
                 let ty_data = child_ty.data();
                 let ty_data = if let Some(named) = ty_data.as_named() {
                     let named = named.clone();
diff --git a/src/hir/match.rs b/src/hir/match.rs
index 2fba41b..edae4f9 100644
--- a/src/hir/match.rs
+++ b/src/hir/match.rs
@@ -33,7 +33,7 @@ use crate::{
     types::mutability::MutType,
     types::r#type::Type,
     types::type_inference::expr::TypeInference,
-    types::type_scheme::PubTypeConstraint,
+    types::type_scheme::{ProjectionRequirementKind, PubTypeConstraint},
     types::typing_env::TypingEnv,
 };
 
@@ -461,6 +461,7 @@ impl TypeInference {
                                         project_variant_inner_id,
                                         bind_var_names[i].0,
                                         SubscriptMemberKind::Ref,
+                                        ProjectionRequirementKind::Structural,
                                     ))
                                 };
                                 let project_inner_id = env.ir_arena.alloc(N::new(
diff --git a/src/hir/mod.rs b/src/hir/mod.rs
index b528856..a3eddca 100644
--- a/src/hir/mod.rs
+++ b/src/hir/mod.rs
@@ -58,6 +58,7 @@ use crate::{
     types::effects::EffType,
     types::never::Never,
     types::r#type::{CallImplType, Type, TypeVar},
+    types::type_scheme::ProjectionRequirementKind,
 };
 
 /// A phase of HIR compilation.
@@ -465,6 +466,7 @@ pub struct FieldAccess<P: HirPhase = Unelaborated> {
     pub value: NodeId<P>,
     pub field: Ustr,
     pub access_mode: SubscriptMemberKind,
+    pub requirement: ProjectionRequirementKind,
 }
 
 // Local storage and ownership payloads.
diff --git a/src/types/type_inference/expr.rs b/src/types/type_inference/expr.rs
index 971d4c7..2f0f0d0 100644
--- a/src/types/type_inference/expr.rs
+++ b/src/types/type_inference/expr.rs
@@ -3374,7 +3374,16 @@ impl TypeInference {
             .map(|projection_effects| self.make_dependent_effect([&effects, projection_effects]))
             .unwrap_or(effects);
         let node = env.ir_arena.alloc(hir::Node::new(
-            NodeKind::FieldAccess(HirFieldAccess::new(record_node_id, field, mode)),
+            NodeKind::FieldAccess(HirFieldAccess::new(
+                record_node_id,
+                field,
+                mode,
+                if uses_projection_evidence {
+                    ProjectionRequirementKind::All
+                } else {
+                    ProjectionRequirementKind::Structural
+                },
+            )),
             element_ty,
             effects,
             expr_span,
@@ -4945,6 +4954,7 @@ impl TypeInference {
                         value,
                         field_access.field,
                         field_access.access_mode,
+                        field_access.requirement,
                     ))
                 })
             }
-- 
2.43.0


From beb4f14cbbe2786e9b9e48205ee6df07032ec1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:36 +0000
Subject: [PATCH 18/32] fix: collapsing a boolean diamond keeps the stored
 value a bool

A condition of a type variable whose Repr is bool was stored as is, which the
MIR verifier rejects.
---
 src/mir/pass/peephole.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/mir/pass/peephole.rs b/src/mir/pass/peephole.rs
index b425f69..8024262 100644
--- a/src/mir/pass/peephole.rs
+++ b/src/mir/pass/peephole.rs
@@ -14,8 +14,10 @@ use crate::{
     mir::{
         self, BlockId, Function, Operation, OperationKind,
         edit::FunctionEdit,
+        role::{MirType, ValueRoles},
         terminator::{Terminator, TerminatorKind},
     },
+    std::logic::bool_type,
 };
 
 struct BoolStore {
@@ -42,8 +44,9 @@ struct BooleanMaterialization {
 /// right: store opposite      to dst; br join
 /// ```
 ///
-/// The replacement stores `condition` directly when the true arm stores `true`, or stores
-/// `comp_eq condition false` for inverse polarity, then jumps to `join`.
+/// The replacement stores `condition` directly when the true arm stores `true` and `condition` has
+/// type `bool`, and `comp_eq condition` with the value the true arm stores otherwise (inverse
+/// polarity, or a condition of a type variable whose `Repr` is `bool`), then jumps to `join`.
 pub(crate) fn materialize_boolean_results(func: &Function) -> Option<Function> {
     let rewrites: Vec<_> = func
         .blocks()
@@ -53,16 +56,22 @@ pub(crate) fn materialize_boolean_results(func: &Function) -> Option<Function> {
         return None;
     }
 
+    let roles = ValueRoles::derive(func);
+    let is_bool = |value: &mir::Value| {
+        roles
+            .get(value, func.constants())
+            .is_some_and(|role| role.materialized_type() == Some(&MirType::Lowered(bool_type())))
+    };
     let mut edit = FunctionEdit::new(func.clone());
     for rewrite in rewrites {
         let span = edit.block(rewrite.block).terminator.span;
-        let stored_value = if rewrite.stored_when_true {
+        let stored_value = if rewrite.stored_when_true && is_bool(&rewrite.condition) {
             rewrite.condition
         } else {
             let mut comparison = Operation::compare_eq(
                 span,
                 rewrite.condition,
-                mir::Value::Pattern(b(LiteralValue::new_native(false))),
+                mir::Value::Pattern(b(LiteralValue::new_native(rewrite.stored_when_true))),
             );
             let result = edit.new_value();
             comparison.assign_result_id(Some(result));
-- 
2.43.0


From 4df45f284fefb541d486eba462460b26ea042a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:54 +0000
Subject: [PATCH 19/32] fix: a fused static append stays within the region its
 text was allocated in

---
 src/mir/pass/string_accumulate.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mir/pass/string_accumulate.rs b/src/mir/pass/string_accumulate.rs
index 8e7d7dd..727fd40 100644
--- a/src/mir/pass/string_accumulate.rs
+++ b/src/mir/pass/string_accumulate.rs
@@ -311,6 +311,15 @@ fn plan_static_append(
     {
         return None;
     }
+    // The append reads the text in place of the string made from it, so the text must still be
+    // there: a restoration between the two can end a region the text was allocated in.
+    if func.block(materialization.block).operations()
+        [materialization.index.as_index()..push.index.as_index()]
+        .iter()
+        .any(|operation| matches!(operation.kind, OperationKind::StackRestore))
+    {
+        return None;
+    }
     Some(StaticAppend {
         materialization,
         push,
-- 
2.43.0


From a7f15fc5faa40966c351726094eee4b78ecba4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:53 +0000
Subject: [PATCH 20/32] fix: a repeated addressor call is not reused once one
 of its other operands is written

---
 src/mir/pass/cse.rs | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/mir/pass/cse.rs b/src/mir/pass/cse.rs
index 51ddd47..c270b78 100644
--- a/src/mir/pass/cse.rs
+++ b/src/mir/pass/cse.rs
@@ -370,6 +370,9 @@ enum AvailableCall {
     Addressor {
         output: mir::Value,
         root: Root,
+        /// The roots of the other arguments, such as an index: the address depends on their
+        /// contents.
+        dependencies: Box<[Root]>,
     },
     Value {
         output: mir::Value,
@@ -895,9 +898,22 @@ fn call_expression(
                 return None;
             };
             let (base, _) = call.arguments.get(index as usize)?;
+            let dependencies: Box<[Root]> = call
+                .arguments
+                .iter()
+                .enumerate()
+                .filter(|(position, _)| *position != index as usize)
+                .map(|(_, (argument, _))| origins.origin_of(argument).map(|origin| origin.root))
+                .collect::<Option<Vec<_>>>()?
+                .into_boxed_slice();
+            let output_root = origins.origin_of(call.result)?.root;
+            if dependencies.contains(&output_root) {
+                return None;
+            }
             AvailableCall::Addressor {
                 output: call.result.clone(),
                 root: origins.origin_of(base)?.root,
+                dependencies,
             }
         }
         CallResultConvention::Value => {
@@ -952,14 +968,23 @@ fn call_expression(
 
 fn forget_write(state: &mut AvailableCalls, origins: &PlaceOrigins, destination: &mir::Value) {
     let Some(origin) = origins.origin_of(destination) else {
-        // An unknown destination may alias a value input. Repeatable addressors remain independent
-        // of leaf writes, and structural operations with unknown provenance clear the whole state
-        // separately.
-        state.retain(|_, available| matches!(available, AvailableCall::Addressor { .. }));
+        // An unknown destination may alias a value input. Repeatable addressors without one remain
+        // independent of leaf writes, and structural operations with unknown provenance clear the
+        // whole state separately.
+        state.retain(|_, available| {
+            matches!(
+                available,
+                AvailableCall::Addressor { dependencies, .. } if dependencies.is_empty()
+            )
+        });
         return;
     };
     state.retain(|_, available| match available {
-        AvailableCall::Addressor { root, .. } => !origin.structural || *root != origin.root,
+        AvailableCall::Addressor {
+            root, dependencies, ..
+        } => {
+            (!origin.structural || *root != origin.root) && !dependencies.contains(&origin.root)
+        }
         AvailableCall::Value {
             dependencies,
             output_root,
@@ -972,8 +997,9 @@ fn forget_root(state: &mut AvailableCalls, root: Root) {
     state.retain(|_, available| match available {
         AvailableCall::Addressor {
             root: available_root,
+            dependencies,
             ..
-        } => *available_root != root,
+        } => *available_root != root && !dependencies.contains(&root),
         AvailableCall::Value {
             dependencies,
             output_root,
-- 
2.43.0


From 7d12405e25699f59226acba83c46b52bff764627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:53 +0000
Subject: [PATCH 21/32] fix: a field of a redefined place is a new symbol to
 the relation analysis

---
 src/mir/pass/relations.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/mir/pass/relations.rs b/src/mir/pass/relations.rs
index b7a62fb..2c346c6 100644
--- a/src/mir/pass/relations.rs
+++ b/src/mir/pass/relations.rs
@@ -542,10 +542,24 @@ pub(crate) struct State {
 impl State {
     /// The symbol a place's current contents are.
     pub(crate) fn symbol_of(&self, place: PlaceId, interner: &mut Interner) -> SymbolId {
-        match self.current.get(&place) {
-            Some(symbol) => *symbol,
-            None => interner.symbol(Symbol::Stored(place, DefSite::Entry)),
-        }
+        if let Some(symbol) = self.current.get(&place) {
+            return *symbol;
+        }
+        // A slot not written on its own holds what the last definition of a slot enclosing it put
+        // there, not what it held on entry.
+        let mut enclosing = interner.places.parent(place);
+        let def = loop {
+            let Some(outer) = enclosing else {
+                break DefSite::Entry;
+            };
+            if let Some(symbol) = self.current.get(&outer)
+                && let Symbol::Stored(_, def) = interner.symbols.name(*symbol)
+            {
+                break *def;
+            }
+            enclosing = interner.places.parent(outer);
+        };
+        interner.symbol(Symbol::Stored(place, def))
     }
 
     pub(crate) fn fact(&self, symbol: SymbolId) -> Option<&Fact> {
-- 
2.43.0


From 1f127ecd63aaae907038305dd1fb3bf53e643978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:53 +0000
Subject: [PATCH 22/32] fix: a match whose arm may write its scrutinee binds
 from a snapshot

---
 src/hir/borrow_checker.rs | 11 +++++++++++
 src/hir/match.rs          | 27 +++++++++++++++++++++++++++
 2 files changed, 38 insertions(+)

diff --git a/src/hir/borrow_checker.rs b/src/hir/borrow_checker.rs
index 7df2317..c575b2c 100644
--- a/src/hir/borrow_checker.rs
+++ b/src/hir/borrow_checker.rs
@@ -202,6 +202,17 @@ fn evaluation_may_write_path(arena: &NodeArena, node_id: NodeId, observed: &Path
         .any(|child| evaluation_may_write_path(arena, child, observed))
 }
 
+/// Whether evaluating `node_id` may change the value of the place `observed`.
+pub(crate) fn evaluation_may_write_place(
+    arena: &NodeArena,
+    node_id: NodeId,
+    observed: NodeId,
+) -> bool {
+    node_is_place_reference(arena, observed)
+        && Path::try_from_node(arena, observed)
+            .is_some_and(|observed| evaluation_may_write_path(arena, node_id, &observed))
+}
+
 /// Return each `Let` place whose observed value may be changed while a later argument is
 /// evaluated.
 ///
diff --git a/src/hir/match.rs b/src/hir/match.rs
index edae4f9..5f8a746 100644
--- a/src/hir/match.rs
+++ b/src/hir/match.rs
@@ -10,6 +10,7 @@ use crate::{
     FxHashMap, Location,
     ast::{DExprId, PatternVar},
     compiler::error::DuplicatedVariantContext,
+    hir::borrow_checker::evaluation_may_write_place,
     hir::hir_syn::store_new_local,
     internal_compilation_error,
     module::{
@@ -571,6 +572,32 @@ impl TypeInference {
             };
             env.cur_locals.truncate(initial_env_size);
 
+            // The bindings borrow the scrutinee's payload. If an arm may write the scrutinee, they
+            // must borrow a snapshot of it instead.
+            if alternatives
+                .iter()
+                .map(|(_, id)| *id)
+                .chain([default])
+                .any(|arm| evaluation_may_write_place(env.ir_arena, arm, condition_node_id))
+            {
+                let snapshot =
+                    self.materialize_owned_value(env, condition_node_id, condition_span);
+                self.set_local_owned_storage_from_value(
+                    env,
+                    l_match_condition,
+                    snapshot,
+                    pattern_ty,
+                    match_span,
+                );
+                let snapshot_eff = env.ir_arena[snapshot].effects.clone();
+                let store = &mut env.ir_arena[store_variant_node_id];
+                store.kind = K::StoreLocal(StoreLocal {
+                    value: snapshot,
+                    id: l_match_condition,
+                });
+                store.effects = snapshot_eff;
+            }
+
             // Generate the final code node
             let default_eff = env.ir_arena[default].effects.clone();
             let case_eff = self.make_dependent_effect([&alt_eff, &default_eff]);
-- 
2.43.0


From 65002744fcd25def0e5f70e5abe6ac3f19e81387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:07 +0000
Subject: [PATCH 23/32] fix: a comparison or branch on a place an addressor
 returned reads the value it denotes

---
 src/mir/interpreter.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/mir/interpreter.rs b/src/mir/interpreter.rs
index 9c97e86..39cb71d 100644
--- a/src/mir/interpreter.rs
+++ b/src/mir/interpreter.rs
@@ -2494,7 +2494,17 @@ impl<'a> Interpreter<'a> {
                         .target_ref(&self.ctx)
                         .expect("operand is an invalid open projection"),
                 ),
-                Some(Binding::Value(value)) => use_value(value),
+                // A place produced by an `AddressorPlace` function is bound as a `PlaceResult`
+                // native (see `place_operand`); what is inspected is the value it denotes.
+                Some(Binding::Value(value)) => match value.as_primitive_ty::<PlaceResult>() {
+                    Some(bridged) => use_value(
+                        bridged
+                            .place()
+                            .target_ref(&self.ctx)
+                            .expect("operand is an invalid bridged place"),
+                    ),
+                    None => use_value(value),
+                },
                 Some(Binding::StackMarker(_)) => {
                     panic!("expected a value but {operand} is bound to a stack marker")
                 }
-- 
2.43.0


From 19fe4eb6d1320401ccf1451d0cbd3b09d9e036fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:41 +0000
Subject: [PATCH 24/32] fix: a field read through a temporary keeps the
 temporary alive until the value is out

---
 src/types/type_inference/expr.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/types/type_inference/expr.rs b/src/types/type_inference/expr.rs
index 2f0f0d0..1e67c79 100644
--- a/src/types/type_inference/expr.rs
+++ b/src/types/type_inference/expr.rs
@@ -3535,22 +3535,30 @@ impl TypeInference {
                 }
                 // Projection evidence is lowered to an accessor. Its receiver
                 // must therefore be a place even when an earlier access-chain
-                // step produced an owned value (for example `array[i].field`).
-                // Keep that value in an explicit owned temporary for the
-                // dynamic extent of the remaining chain.
-                let projection_receiver_needs_temp =
-                    matches!(&*place_ty.data(), TypeKind::Variable(_))
-                        && !node_is_place_reference(env.ir_arena, place_node);
+                // step produced an owned value (for example `array[i].field`),
+                // and a place inside a temporary must keep that temporary
+                // alive (for example `make()[i].field`). Keep either value in
+                // an explicit owned temporary for the dynamic extent of the
+                // remaining chain.
+                let projection_uses_evidence =
+                    matches!(&*place_ty.data(), TypeKind::Variable(_));
                 let temp_start_index = env.cur_locals.len();
                 let mut temp_stores = Vec::new();
-                let place_node = if projection_receiver_needs_temp {
+                let place_node = if !projection_uses_evidence {
+                    place_node
+                } else if !node_is_place_reference(env.ir_arena, place_node) {
                     let (store, load) =
                         self.store_owned_temp(env, place_node, place_ty, expr_span, ustr("$place"));
                     temp_stores.push(store);
                     load
+                } else if place_resolution_may_create_temp(env.ir_arena, place_node) {
+                    let prepared = self.prepare_place_for_consumer(env, place_node, expr_span);
+                    temp_stores = prepared.prefix;
+                    prepared.place
                 } else {
                     place_node
                 };
+                let owns_temps = env.cur_locals.len() > temp_start_index;
                 let (next_node, next_ty, next_mut, uses_projection_evidence) = self
                     .infer_field_from_record_node(
                         env, place_node, place_ty, place_mut, mode, *base_span, *name, *step_span,
@@ -3597,10 +3605,11 @@ impl TypeInference {
                         build_body,
                     )
                 }?;
-                if temp_stores.is_empty() {
+                if !owns_temps {
                     return Ok(result);
                 }
-                let (node, _) = result;
+                // The temporaries are dropped here, so a place inside them cannot leave.
+                let node = self.materialize_owned_value(env, result.0, expr_span);
                 let ty = env.ir_arena[node].ty;
                 let effects = env.ir_arena[node].effects.clone();
                 let node = self.wrap_owned_value_with_temp_drops(
@@ -4664,7 +4673,7 @@ impl TypeInference {
         value_effects: EffType,
         span: Location,
     ) -> NodeId {
-        if prefix.is_empty() {
+        if prefix.is_empty() && env.cur_locals.len() == temp_start_index {
             return value;
         }
 
-- 
2.43.0


From b59216dcd784eaec2b2fba6bf3a2601c438906fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:41 +0000
Subject: [PATCH 25/32] fix: temporaries of a call's projected arguments are
 dropped, not leaked, beside its owned arguments

---
 src/hir/elaboration.rs | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/hir/elaboration.rs b/src/hir/elaboration.rs
index 65a9652..7cd3328 100644
--- a/src/hir/elaboration.rs
+++ b/src/hir/elaboration.rs
@@ -1547,6 +1547,37 @@ impl<'a, 'w, 'd, 'sr, 'sm> HirElaboration<'a, 'w, 'd, 'sr, 'sm> {
         }))
     }
 
+    /// Merges the cleanup scope that elaboration put around a block's tail call into the block.
+    ///
+    /// Preparing a call's arguments may leave the ownership of a temporary stored *during* argument
+    /// evaluation (such as the base of a projected argument) to the block around the call. A scope
+    /// of its own for the owned arguments would end before that block cleans the temporary up.
+    fn merge_tail_call_cleanup(
+        &self,
+        src: &UNodeArena,
+        block: &hir::Block<Unelaborated>,
+        body: &mut [ENodeId],
+        cleanup: &mut Vec<LocalDeclId>,
+    ) {
+        if cleanup.is_empty() || body.len() != block.body.len() {
+            return;
+        }
+        let (Some(source_tail), Some(tail)) = (block.tail_node(), body.last_mut()) else {
+            return;
+        };
+        if matches!(src[source_tail].kind, NodeKind::Block(_)) {
+            return;
+        }
+        if let NodeKind::Block(scope) = &self.dst[*tail].kind
+            && let [call] = scope.body[..]
+            && !scope.cleanup.is_empty()
+        {
+            // Cleanup runs in reverse: the arguments, then what the block already owned.
+            cleanup.extend(scope.cleanup.iter().copied());
+            *tail = call;
+        }
+    }
+
     fn elaborate_source_kind(
         &mut self,
         src: &UNodeArena,
@@ -2219,6 +2250,8 @@ impl<'a, 'w, 'd, 'sr, 'sm> HirElaboration<'a, 'w, 'd, 'sr, 'sm> {
                         break;
                     }
                 }
+                let mut cleanup = cleanup;
+                self.merge_tail_call_cleanup(src, block, &mut body, &mut cleanup);
                 Block(b(hir::Block {
                     body: b(SVec2::from_vec(body)),
                     cleanup,
-- 
2.43.0


From ba9cd1055affc96480594ca94248d2e30a19b0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:07 +0000
Subject: [PATCH 26/32] fix: a first-class call passes its arguments by the
 callee's resolved conventions

---
 src/hir/elaboration.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/hir/elaboration.rs b/src/hir/elaboration.rs
index 7cd3328..1295d15 100644
--- a/src/hir/elaboration.rs
+++ b/src/hir/elaboration.rs
@@ -1079,6 +1079,26 @@ enum ArgumentLifetimePlan {
     },
 }
 
+/// The arguments of a first-class call, with the conventions of the callee's resolved type.
+///
+/// Inference may meet the call before the callee's type is known, and then takes a mutable place
+/// for a mutable reference. If the callee turns out to take a `Let` parameter there, the argument
+/// only observes the place, at its own position in the evaluation order.
+fn dynamic_call_arguments(
+    src: &UNodeArena,
+    app: &hir::FunctionApplication<Unelaborated>,
+) -> Vec<CallArgument> {
+    let mut arguments = app.arguments.clone();
+    if let TypeKind::Function(fn_ty) = &*src[app.function].ty.data() {
+        for (argument, arg_ty) in arguments.iter_mut().zip(&fn_ty.args) {
+            if arg_ty.mut_ty.as_resolved().is_some_and(|mut_ty| !mut_ty.is_mutable()) {
+                argument.passing = ArgConvention::Let;
+            }
+        }
+    }
+    arguments
+}
+
 struct ElaboratedCallArguments {
     arguments: Vec<CallArgument<Elaborated>>,
     cleanup: Vec<LocalDeclId>,
@@ -1644,10 +1664,11 @@ impl<'a, 'w, 'd, 'sr, 'sm> HirElaboration<'a, 'w, 'd, 'sr, 'sm> {
             FunctionApply(app) => {
                 let function_source = app.function;
                 let ty = app.ty.clone();
+                let app_arguments = dynamic_call_arguments(src, app);
                 let snapshot_function = hir::borrow_checker::callee_overlaps_argument_writes(
                     src,
                     function_source,
-                    &app.arguments,
+                    &app_arguments,
                 );
 
                 // The function expression is evaluated before every argument. Preserve that
@@ -1695,7 +1716,7 @@ impl<'a, 'w, 'd, 'sr, 'sm> HirElaboration<'a, 'w, 'd, 'sr, 'sm> {
                 }
                 let arguments = self.elaborate_call_arguments(
                     src,
-                    &app.arguments,
+                    &app_arguments,
                     ty.returns_place(),
                     node_span,
                 )?;
-- 
2.43.0


From 8b87c7ddaee428024a6250f7069fcfa762811c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:55 +0000
Subject: [PATCH 27/32] fix: an inclusive range ends at the last int it can
 hold

---
 src/std/prelude/core_impls.fer | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/std/prelude/core_impls.fer b/src/std/prelude/core_impls.fer
index 9b31769..817630c 100644
--- a/src/std/prelude/core_impls.fer
+++ b/src/std/prelude/core_impls.fer
@@ -64,36 +64,35 @@ pub struct RangeInclusive {
 }
 
 /// An iterator over an inclusive range.
+/// `done` tells that the end was yielded: the end itself may have no successor.
 #[private_repr]
 pub struct RangeInclusiveIterator {
 	range: RangeInclusive,
 	next: int,
+	done: bool,
 }
 
 impl Iterator {
 	fn next(it: &mut RangeInclusiveIterator) {
-		let next = it.next;
-		if it.range.end >= it.range.start {
-			if next <= it.range.end {
+		if it.done {
+			None
+		} else {
+			let next = it.next;
+			if next == it.range.end {
+				it.done = true;
+			} else if it.range.end >= it.range.start {
 				it.next += 1;
-				Some(next)
 			} else {
-				None
-			}
-		} else {
-			if next >= it.range.end {
 				it.next -= 1;
-				Some(next)
-			} else {
-				None
-			}
+			};
+			Some(next)
 		}
 	}
 }
 
 impl Seq {
 	fn iter(r: RangeInclusive) {
-		RangeInclusiveIterator { range: r, next: r.start }
+		RangeInclusiveIterator { range: r, next: r.start, done: false }
 	}
 }
 
-- 
2.43.0


From d8efff94088f7aa37875c2b91a0048c2facc228f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:51 +0000
Subject: [PATCH 28/32] fix: deeply nested data or JSON text is refused instead
 of exhausting the host's stack

---
 src/std/data_text.rs | 16 ++++++++++++++++
 src/std/json.rs      | 15 +++++++++++----
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/std/data_text.rs b/src/std/data_text.rs
index 50ecece..fc427b4 100644
--- a/src/std/data_text.rs
+++ b/src/std/data_text.rs
@@ -87,9 +87,14 @@ fn escape_data_text_string(input: &Str) -> Str {
     Str::new(&escape_string(input.as_ref()))
 }
 
+/// How deeply data may nest. Parsing is recursive, and must not exhaust the host's stack.
+pub(super) const MAX_DATA_NESTING: usize = 128;
+
 struct Parser<'a> {
     input: &'a str,
     pos: usize,
+    /// How many values enclose the one being parsed.
+    nesting: usize,
     variant_case_storage: VariantPayloadStorage,
 }
 
@@ -98,6 +103,7 @@ impl<'a> Parser<'a> {
         Self {
             input,
             pos: 0,
+            nesting: 0,
             variant_case_storage,
         }
     }
@@ -171,6 +177,16 @@ impl<'a> Parser<'a> {
     }
 
     fn parse_value(&mut self) -> Result<Value, SourceFailureKind> {
+        if self.nesting > MAX_DATA_NESTING {
+            return Err(self.error("Data nested too deeply"));
+        }
+        self.nesting += 1;
+        let value = self.parse_nested_value();
+        self.nesting -= 1;
+        value
+    }
+
+    fn parse_nested_value(&mut self) -> Result<Value, SourceFailureKind> {
         self.skip_ws_and_comments()?;
         match self.peek_char() {
             Some('"') => self
diff --git a/src/std/json.rs b/src/std/json.rs
index e4e51a6..ca7cb84 100644
--- a/src/std/json.rs
+++ b/src/std/json.rs
@@ -21,6 +21,7 @@ use crate::{
     module::{Module, Visibility},
     std::{
         array::array_value_from_vec,
+        data_text::MAX_DATA_NESTING,
         data_value::data_value_type,
         math::{float_value, int_value},
         string::{string_type, string_value},
@@ -69,7 +70,13 @@ enum ParseResult {
 
 fn parse_json_stream<R: Read>(
     reader: &mut ReaderJsonParser<R>,
+    nesting: usize,
 ) -> Result<ParseResult, SourceFailureKind> {
+    if nesting > MAX_DATA_NESTING {
+        return Err(SourceFailureKind::InvalidArgument(
+            "Data nested too deeply in JSON".into(),
+        ));
+    }
     let variant = |tag, value| Value::tuple_variant(ustr(tag), [value]);
     let event = next_event(reader)?;
     use json_event_parser::JsonEvent::*;
@@ -94,7 +101,7 @@ fn parse_json_stream<R: Read>(
         StartArray => {
             let mut items = Vec::new();
             loop {
-                let item = parse_json_stream(reader)?;
+                let item = parse_json_stream(reader, nesting + 1)?;
                 match item {
                     ParseResult::Value(v) => items.push(v),
                     ParseResult::Key(_) => panic!("Unexpected object key in array"),
@@ -108,14 +115,14 @@ fn parse_json_stream<R: Read>(
         StartObject => {
             let mut fields = Vec::new();
             loop {
-                let key_or_end = parse_json_stream(reader)?;
+                let key_or_end = parse_json_stream(reader, nesting + 1)?;
                 let key = match key_or_end {
                     ParseResult::Value(_) => panic!("Unexpected value in object"),
                     ParseResult::Key(k) => k,
                     ParseResult::EndArray => panic!("Unexpected end of array in object"),
                     ParseResult::EndObject => break,
                 };
-                let value = parse_json_stream(reader)?
+                let value = parse_json_stream(reader, nesting + 1)?
                     .into_value()
                     .expect("Expected value in object");
                 let tuple = Value::tuple([string_value(key.as_ref()), value]);
@@ -133,7 +140,7 @@ fn parse_json_stream<R: Read>(
 fn parse_json(input: &Str) -> Result<Value, SourceFailureKind> {
     let reader = Cursor::new(input.as_ref().as_bytes());
     let mut reader = ReaderJsonParser::new(reader);
-    let value = parse_json_stream(&mut reader)?;
+    let value = parse_json_stream(&mut reader, 0)?;
     let eof_event = next_event(&mut reader)?;
     if let json_event_parser::JsonEvent::Eof = eof_event {
         Ok(value.into_value().unwrap())
-- 
2.43.0


From 4909f5c9a41e056d1e500d364aa32e05120ae64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:37 +0000
Subject: [PATCH 29/32] fix: a closure over plain values owns its environment,
 so it can be rebuilt in a loop

---
 src/types/type_inference/expr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/types/type_inference/expr.rs b/src/types/type_inference/expr.rs
index 1e67c79..c254878 100644
--- a/src/types/type_inference/expr.rs
+++ b/src/types/type_inference/expr.rs
@@ -5207,7 +5207,8 @@ impl TypeInference {
             Variant(variant) => smallvec![variant.payload],
             Block(block) => block.tail_node().into_iter().collect(),
             Tuple(nodes) | Record(nodes) => nodes.iter().copied().collect(),
-            BuildClosure(closure) => closure.captures.iter().copied().collect(),
+            // A closure owns its environment, whatever it captures.
+            BuildClosure(closure) => return !closure.captures.is_empty(),
             BuildSubscriptValue(_) => return false,
             _ => return self.type_needs_semantic_drop(env, ty),
         };
-- 
2.43.0


From 15c9eb41956d1ad6270eebebc720d02665556d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:21 +0000
Subject: [PATCH 30/32] fix: data text tells a case holding a lone record from
 a case with record fields

---
 src/std/data_text.rs          | 5 ++++-
 src/std/prelude/data_text.fer | 7 +++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/std/data_text.rs b/src/std/data_text.rs
index fc427b4..41a5a30 100644
--- a/src/std/data_text.rs
+++ b/src/std/data_text.rs
@@ -308,12 +308,15 @@ impl<'a> Parser<'a> {
                         ));
                     }
                     let mut args = Vec::new();
+                    // As for tuples, a trailing comma tells `V({ … },)` from the record payload `V({ … })`.
+                    let mut trailing_comma = false;
                     loop {
                         args.push(self.parse_value()?);
                         self.skip_ws_and_comments()?;
                         if self.consume_char(',') {
                             self.skip_ws_and_comments()?;
                             if self.consume_char(')') {
+                                trailing_comma = true;
                                 break;
                             }
                             continue;
@@ -321,7 +324,7 @@ impl<'a> Parser<'a> {
                         self.expect_char(')')?;
                         break;
                     }
-                    let payload = if args.len() == 1 && is_record_data(&args[0]) {
+                    let payload = if args.len() == 1 && !trailing_comma && is_record_data(&args[0]) {
                         args.pop().expect("single argument exists")
                     } else {
                         data_array_variant("Tuple", args)
diff --git a/src/std/prelude/data_text.fer b/src/std/prelude/data_text.fer
index 6953697..865cd06 100644
--- a/src/std/prelude/data_text.fer
+++ b/src/std/prelude/data_text.fer
@@ -139,6 +139,13 @@ pub fn to_data_text(v: DataValue) -> string {
 								string_push_str(result, ", ");
 							};
 							string_push_str(result, to_data_text(values[i]));
+						};
+						// Without the comma, a lone record would read back as the payload itself.
+						if array_len(values) == 1 {
+							match (values[0]) {
+								DataValue::Record(_entries) => string_push_str(result, ","),
+								_ => (),
+							}
 						}
 					},
 					_ => string_push_str(result, to_data_text(payload)),
-- 
2.43.0


From a408575054058d412f2b7f406a300b53938f2d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:55 +0000
Subject: [PATCH 31/32] fix: the MIR verifier knows a case carrying nothing
 owns nothing, so it can be stored in a loop

---
 src/mir/verify.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mir/verify.rs b/src/mir/verify.rs
index d7edfda..29c2e20 100644
--- a/src/mir/verify.rs
+++ b/src/mir/verify.rs
@@ -1659,7 +1659,10 @@ impl<'a> Verifier<'a> {
                 let node = self.value_definition[value_id];
                 let operation = self.operation(node).unwrap();
                 match &operation.kind {
-                    OperationKind::Variant { metadata, .. } => !self.is_trivial_copy(metadata.ty),
+                    // A case carrying nothing is its tag alone, whatever the other cases hold.
+                    OperationKind::Variant { metadata, .. } => {
+                        metadata.payload_ty != Type::unit() && !self.is_trivial_copy(metadata.ty)
+                    }
                     OperationKind::CloneClosureEnv { .. } => true,
                     OperationKind::BuildClosure {
                         num_hidden_dicts,
-- 
2.43.0


From c58044031d64ad12944df0814a16c3e3cd002e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:54:32 +0000
Subject: [PATCH 32/32] fix: do not hand a value over to a callee that is also
 given a place inside it

---
 src/mir/pass/owned_arguments.rs | 64 ++++++++++++++++++++++++---------
 1 file changed, 48 insertions(+), 16 deletions(-)

diff --git a/src/mir/pass/owned_arguments.rs b/src/mir/pass/owned_arguments.rs
index e3bdd8a..75a4874 100644
--- a/src/mir/pass/owned_arguments.rs
+++ b/src/mir/pass/owned_arguments.rs
@@ -400,9 +400,9 @@ fn rewrite_caller(source: &Function, factory: &mut VariantFactory<'_>) -> Option
             let mir::Value::Register(root) = operand else {
                 continue;
             };
-            if origins.get(root) != Some(root)
+            if origins.get(root) != Some(&PlaceOrigin::Local(*root))
                 || operation.operands.iter().enumerate().any(|(index, other)| {
-                    index != operand_index && operand_root(other, &origins) == Some(*root)
+                    index != operand_index && may_point_into(other, *root, &origins)
                 })
             {
                 continue;
@@ -492,7 +492,7 @@ fn terminal_drops(
     call: Site,
     operand: &mir::Value,
     root: mir::ValueId,
-    origins: &FxHashMap<mir::ValueId, mir::ValueId>,
+    origins: &PlaceOrigins,
     predecessors: &[usize],
 ) -> Option<Vec<Site>> {
     match call {
@@ -550,7 +550,7 @@ fn sole_drop_in_operations(
     start: usize,
     operand: &mir::Value,
     root: mir::ValueId,
-    origins: &FxHashMap<mir::ValueId, mir::ValueId>,
+    origins: &PlaceOrigins,
 ) -> Option<OperationIndex> {
     let mut found = None;
     for (index, operation) in operations.iter().enumerate().skip(start) {
@@ -564,7 +564,7 @@ fn sole_drop_in_operations(
         if operation
             .operands
             .iter()
-            .any(|value| operand_root(value, origins) == Some(root))
+            .any(|value| may_point_into(value, root, origins))
         {
             return None;
         }
@@ -586,8 +586,20 @@ fn sole_use(function: &Function, value: &mir::Value) -> Option<(Site, usize)> {
     found
 }
 
-fn place_origins(function: &Function) -> FxHashMap<mir::ValueId, mir::ValueId> {
-    let mut origins = FxHashMap::default();
+/// What the place held in a register is known to point into.
+#[derive(Clone, Copy, PartialEq, Eq)]
+enum PlaceOrigin {
+    /// The local allocation with this identity.
+    Local(mir::ValueId),
+    /// Some object, possibly one of this frame's locals.
+    Anywhere,
+}
+
+type PlaceOrigins = FxHashMap<mir::ValueId, PlaceOrigin>;
+
+fn place_origins(function: &Function) -> PlaceOrigins {
+    let mut origins = PlaceOrigins::default();
+    let mut place_slots = FxHashSet::default();
     for block in function.blocks() {
         for operation in function.block(block).operations() {
             let Some(result) = operation.result_id() else {
@@ -595,11 +607,23 @@ fn place_origins(function: &Function) -> FxHashMap<mir::ValueId, mir::ValueId> {
             };
             match &operation.kind {
                 OperationKind::Alloca { .. } => {
-                    origins.insert(result, result);
+                    origins.insert(result, PlaceOrigin::Local(result));
+                }
+                OperationKind::AllocaPlace { .. } => {
+                    place_slots.insert(result);
+                }
+                OperationKind::Load => {
+                    // The place an addressor returned: it points into one of the objects the
+                    // addressor was given, and which one is not recorded in the slot.
+                    if let mir::Value::Register(slot) = &operation.operands[0]
+                        && place_slots.contains(slot)
+                    {
+                        origins.insert(result, PlaceOrigin::Anywhere);
+                    }
                 }
                 OperationKind::Subfield { .. } => {
-                    if let Some(root) = operand_root(&operation.operands[0], &origins) {
-                        origins.insert(result, root);
+                    if let Some(origin) = operand_origin(&operation.operands[0], &origins) {
+                        origins.insert(result, origin);
                     }
                 }
                 OperationKind::Project { ty, .. } => {
@@ -607,8 +631,10 @@ fn place_origins(function: &Function) -> FxHashMap<mir::ValueId, mir::ValueId> {
                     // origin makes its eventual `end_project` (or any other later use) prevent us
                     // from transferring the receiver while the projection is live.
                     let visible_start = operation.operands.len() - ty.fn_ty.args.len();
-                    if let Some(root) = operand_root(&operation.operands[visible_start], &origins) {
-                        origins.insert(result, root);
+                    if let Some(origin) =
+                        operand_origin(&operation.operands[visible_start], &origins)
+                    {
+                        origins.insert(result, origin);
                     }
                 }
                 _ => {}
@@ -618,16 +644,22 @@ fn place_origins(function: &Function) -> FxHashMap<mir::ValueId, mir::ValueId> {
     origins
 }
 
-fn operand_root(
-    operand: &mir::Value,
-    origins: &FxHashMap<mir::ValueId, mir::ValueId>,
-) -> Option<mir::ValueId> {
+fn operand_origin(operand: &mir::Value, origins: &PlaceOrigins) -> Option<PlaceOrigin> {
     let mir::Value::Register(value) = operand else {
         return None;
     };
     origins.get(value).copied()
 }
 
+/// Whether `operand` may be a place inside the local allocation `root`.
+fn may_point_into(operand: &mir::Value, root: mir::ValueId, origins: &PlaceOrigins) -> bool {
+    match operand_origin(operand, origins) {
+        Some(PlaceOrigin::Local(local)) => local == root,
+        Some(PlaceOrigin::Anywhere) => true,
+        None => false,
+    }
+}
+
 fn predecessor_counts(function: &Function) -> Vec<usize> {
     let mut predecessors = vec![0; function.blocks().count()];
     for block in function.blocks() {
-- 
2.43.0

