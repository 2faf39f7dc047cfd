From ae08474c08de898355cfa16aa4c75744454f08ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:42 +0000
Subject: [PATCH 01/43] fix: use unsigned and float division, remainder and
 shift for vectors

The operand kind was taken from the vector type instead of its element
type, so uint vectors were divided and shifted as signed ones and
float vectors used an integer remainder.
---
 src/compiler/llvm_codegen_expr.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index 9a688ca..1c531ec 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -4012,6 +4012,7 @@ void llvm_emit_binary(GenContext *c, BEValue *be_value, Expr *expr, BEValue *lhs
 	Type *rhs_type = rhs.type;
 	Type *vector_type = lhs_type->type_kind == TYPE_VECTOR ? lhs_type->array.base : NULL;
 	bool is_float = type_is_float(lhs_type) || (vector_type && type_is_float(vector_type));
+	bool is_unsigned = type_is_unsigned(vector_type ? vector_type : lhs_type);
 	LLVMValueRef val = NULL;
 	LLVMValueRef lhs_value = lhs.value;
 	LLVMValueRef rhs_value = rhs.value;
@@ -4087,25 +4088,25 @@ void llvm_emit_binary(GenContext *c, BEValue *be_value, Expr *expr, BEValue *lhs
 				val = LLVMBuildFDiv(c->builder, lhs_value, rhs_value, "fdiv");
 				break;
 			}
-			val = type_is_unsigned(lhs_type)
+			val = is_unsigned
 				  ? LLVMBuildUDiv(c->builder, lhs_value, rhs_value, "udiv")
 				  : LLVMBuildSDiv(c->builder, lhs_value, rhs_value, "sdiv");
 			break;
 		case BINARYOP_MOD:
 			llvm_emit_trap_zero(c, rhs_type, rhs_value, "% by zero.", expr->span);
-			if (type_is_float(lhs_type))
+			if (is_float)
 			{
 				val = LLVMBuildFRem(c->builder, lhs_value, rhs_value, "fmod");
 				break;
 			}
-			val = type_is_unsigned(lhs_type)
+			val = is_unsigned
 				  ? LLVMBuildURem(c->builder, lhs_value, rhs_value, "umod")
 				  : LLVMBuildSRem(c->builder, lhs_value, rhs_value, "smod");
 			break;
 		case BINARYOP_SHR:
 			rhs_value = llvm_zext_trunc(c, rhs_value, LLVMTypeOf(lhs_value));
 			llvm_emit_trap_invalid_shift(c, rhs_value, lhs_type, "Shift amount out of range (was %s).", expr->span);
-			val = type_is_unsigned(lhs_type)
+			val = is_unsigned
 				  ? LLVMBuildLShr(c->builder, lhs_value, rhs_value, "lshr")
 				  : LLVMBuildAShr(c->builder, lhs_value, rhs_value, "ashr");
 			val = LLVMBuildFreeze(c->builder, val, "");
-- 
2.43.0


From 913dd37c3eb20af4bbc84d96e90e569d3e218b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:49 +0000
Subject: [PATCH 02/43] fix: check the whole shift amount when it is wider than
 the shifted value

The amount was truncated to the type of the shifted value before the
safe mode range check, so '1 << 4294967297L' passed it.
---
 src/compiler/llvm_codegen_expr.c | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index 1c531ec..bcf8055 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -2516,7 +2516,7 @@ static void llvm_emit_trap_zero(GenContext *c, Type *type, LLVMValueRef value, c
 }
 
 
-static void llvm_emit_trap_invalid_shift(GenContext *c, LLVMValueRef value, Type *type, const char *error, SourceSpan loc)
+static void llvm_emit_trap_invalid_shift(GenContext *c, LLVMValueRef value, Type *type, Type *shifted_type, const char *error, SourceSpan loc)
 {
 	if (!safe_mode_enabled()) return;
 	BEValue val;
@@ -2525,7 +2525,7 @@ static void llvm_emit_trap_invalid_shift(GenContext *c, LLVMValueRef value, Type
 	if (type_flat_is_vector(type))
 	{
 		Type *vec_base = type->array.base;
-		unsigned type_bit_size = type_size(vec_base) * 8;
+		unsigned type_bit_size = type_size(type_flatten(shifted_type)->array.base) * 8;
 		LLVMTypeRef llvm_type = llvm_get_type(c, type);
 		LLVMValueRef max = llvm_const_int(c, vec_base, type_bit_size);
 		if (type_is_unsigned(vec_base))
@@ -2547,7 +2547,7 @@ static void llvm_emit_trap_invalid_shift(GenContext *c, LLVMValueRef value, Type
 	}
 	else
 	{
-		unsigned type_bit_size = type_size(type) * 8;
+		unsigned type_bit_size = type_size(shifted_type) * 8;
 		LLVMValueRef max = llvm_const_int(c, type, type_bit_size);
 		if (type_is_unsigned(type))
 		{
@@ -2563,6 +2563,23 @@ static void llvm_emit_trap_invalid_shift(GenContext *c, LLVMValueRef value, Type
 	}
 }
 
+/**
+ * Convert the shift amount to the type of the shifted value, checking it in whichever type is the wider,
+ * so that the check sees the whole amount.
+ */
+static LLVMValueRef llvm_emit_shift_amount(GenContext *c, LLVMValueRef amount, Type *amount_type, LLVMValueRef shifted, Type *shifted_type, SourceSpan loc)
+{
+	static const char *error = "Shift amount out of range (was %s).";
+	if (type_size(amount_type) > type_size(shifted_type))
+	{
+		llvm_emit_trap_invalid_shift(c, amount, amount_type, shifted_type, error, loc);
+		return llvm_zext_trunc(c, amount, LLVMTypeOf(shifted));
+	}
+	amount = llvm_zext_trunc(c, amount, LLVMTypeOf(shifted));
+	llvm_emit_trap_invalid_shift(c, amount, shifted_type, shifted_type, error, loc);
+	return amount;
+}
+
 static void llvm_emit_slice_values(GenContext *c, Expr *slice, BEValue *parent_ref, BEValue *start_ref, BEValue *end_ref, bool *is_exclusive)
 {
 	ASSERT(slice->expr_kind == EXPR_SLICE);
@@ -4104,16 +4121,14 @@ void llvm_emit_binary(GenContext *c, BEValue *be_value, Expr *expr, BEValue *lhs
 				  : LLVMBuildSRem(c->builder, lhs_value, rhs_value, "smod");
 			break;
 		case BINARYOP_SHR:
-			rhs_value = llvm_zext_trunc(c, rhs_value, LLVMTypeOf(lhs_value));
-			llvm_emit_trap_invalid_shift(c, rhs_value, lhs_type, "Shift amount out of range (was %s).", expr->span);
+			rhs_value = llvm_emit_shift_amount(c, rhs_value, rhs_type, lhs_value, lhs_type, expr->span);
 			val = is_unsigned
 				  ? LLVMBuildLShr(c->builder, lhs_value, rhs_value, "lshr")
 				  : LLVMBuildAShr(c->builder, lhs_value, rhs_value, "ashr");
 			val = LLVMBuildFreeze(c->builder, val, "");
 			break;
 		case BINARYOP_SHL:
-			rhs_value = llvm_zext_trunc(c, rhs_value, LLVMTypeOf(lhs_value));
-			llvm_emit_trap_invalid_shift(c, rhs_value, lhs_type, "Shift amount out of range (was %s).", expr->span);
+			rhs_value = llvm_emit_shift_amount(c, rhs_value, rhs_type, lhs_value, lhs_type, expr->span);
 			val = LLVMBuildShl(c->builder, lhs_value, rhs_value, "shl");
 			val = LLVMBuildFreeze(c->builder, val, "");
 			break;
-- 
2.43.0


From 74ced23da0818adf62245d30bc98e1578ed2d36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:20 +0000
Subject: [PATCH 03/43] fix: bounds check vector elements and from-the-end
 indices in safe builds

A from-the-end index was subtracted from the length with 'nuw' before it was
checked, so the optimizer could drop the check. Vector elements were not
checked at all, and assigning to v[^i] ignored the '^'.
---
 src/compiler/llvm_codegen_expr.c | 55 ++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 20 deletions(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index bcf8055..9ad9bee 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -670,6 +670,36 @@ static inline void llvm_emit_subscript_addr_with_base(GenContext *c, BEValue *re
 	}
 }
 
+/**
+ * Convert an index counted from the end. With bounds checking on, the result must be well defined
+ * also when the index is out of range, otherwise the check that follows may be optimized away.
+ */
+static LLVMValueRef llvm_emit_index_from_end(GenContext *c, LLVMValueRef len, LLVMValueRef index)
+{
+	return safe_mode_enabled() ? LLVMBuildSub(c->builder, len, index, "") : LLVMBuildNUWSub(c->builder, len, index, "");
+}
+
+/**
+ * Emit the index of a vector element: resolved from the end if needed and bounds checked in safe mode.
+ */
+static LLVMValueRef llvm_emit_vector_index(GenContext *c, Expr *expr, Type *vec)
+{
+	Expr *index_expr = exprptr(expr->subscript_expr.index.expr);
+	BEValue index;
+	llvm_emit_expr(c, &index, index_expr);
+	llvm_value_rvalue(c, &index);
+	LLVMValueRef len = llvm_const_int(c, index.type, vec->array.len);
+	if (expr->subscript_expr.index.start_from_end)
+	{
+		index.value = llvm_emit_index_from_end(c, len, index.value);
+	}
+	if (safe_mode_enabled() && !llvm_is_global_eval(c))
+	{
+		llvm_emit_array_bounds_check(c, &index, len, index_expr->span);
+	}
+	return index.value;
+}
+
 static inline void llvm_emit_vector_subscript(GenContext *c, BEValue *value, Expr *expr)
 {
 	llvm_emit_exprid(c, value, expr->subscript_expr.expr);
@@ -678,13 +708,7 @@ static inline void llvm_emit_vector_subscript(GenContext *c, BEValue *value, Exp
 	ASSERT(vec->type_kind == TYPE_VECTOR);
 	Type *element = vec->array.base;
 	LLVMValueRef vector = value->value;
-	llvm_emit_exprid(c, value, expr->subscript_expr.index.expr);
-	llvm_value_rvalue(c, value);
-	LLVMValueRef index = value->value;
-	if (expr->subscript_expr.index.start_from_end)
-	{
-		index = LLVMBuildNUWSub(c->builder, llvm_const_int(c, value->type, vec->array.len), index, "");
-	}
+	LLVMValueRef index = llvm_emit_vector_index(c, expr, vec);
 	llvm_value_set(value, LLVMBuildExtractElement(c->builder, vector, index, ""), element);
 }
 
@@ -737,7 +761,7 @@ static inline void llvm_emit_subscript_addr(GenContext *c, BEValue *value, Expr
 	if (start_from_end)
 	{
 		ASSERT(needs_len);
-		index.value = LLVMBuildNUWSub(c->builder, llvm_zext_trunc(c, len.value, llvm_get_type(c, index.type)), index.value, "");
+		index.value = llvm_emit_index_from_end(c, llvm_zext_trunc(c, len.value, llvm_get_type(c, index.type)), index.value);
 	}
 	if (needs_len && safe_mode_enabled() && !llvm_is_global_eval(c))
 	{
@@ -2224,15 +2248,8 @@ static inline void llvm_emit_pre_post_inc_dec_vector(GenContext *c, BEValue *val
 	Type *element = vec->array.base;
 	LLVMValueRef vector = value->value;
 
-	// Now let's get the subscript and store it in value
-	bool start_from_end = expr->subscript_expr.index.start_from_end;
-	llvm_emit_exprid(c, value, expr->subscript_expr.index.expr);
-	llvm_value_rvalue(c, value);
-	LLVMValueRef index = value->value;
-	if (start_from_end)
-	{
-		index = LLVMBuildNUWSub(c->builder, llvm_const_int(c, value->type, vec->array.len), index, "");
-	}
+	// Now let's get the subscript
+	LLVMValueRef index = llvm_emit_vector_index(c, expr, vec);
 
 	// We're now done, we can extract the current value:
 	BEValue current_res;
@@ -4410,9 +4427,7 @@ static void llvm_emit_vector_assign_expr(GenContext *c, BEValue *be_value, Expr
 		return;
 	}
 	// Emit the index
-	BEValue index;
-	llvm_emit_exprid(c, &index, left->subscript_expr.index.expr);
-	LLVMValueRef index_val = llvm_load_value_store(c, &index);
+	LLVMValueRef index_val = llvm_emit_vector_index(c, left, addr.type);
 	if (binary_op > BINARYOP_ASSIGN)
 	{
 		BinaryOp base_op = binaryop_assign_base_op(binary_op);
-- 
2.43.0


From a90d19e8fbd34359462bd4181fb16809fdea2ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:46 +0000
Subject: [PATCH 04/43] fix: keep the high bits of the last byte when writing
 an array-backed bitfield

A field that starts and ends inside one byte after the first kept the wrong
high bits, because the mask was made from the bit index in the whole array.
---
 src/compiler/llvm_codegen_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index 9ad9bee..cb54d2f 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -1103,7 +1103,7 @@ static inline void llvm_emit_update_bitstruct_array(GenContext *c,
 			if (i == end_byte && end_mod != 7)
 			{
 				res = llvm_emit_and_raw(c, res, llvm_const_low_bitmask(c, c->byte_type, 8, end_mod + 1));
-				mask = llvm_emit_or_raw(c, mask, llvm_const_high_bitmask(c, c->byte_type, 8, 7 - (int)end_bit));
+				mask = llvm_emit_or_raw(c, mask, llvm_const_high_bitmask(c, c->byte_type, 8, 7 - end_mod));
 			}
 			// Load the current value.
 			LLVMValueRef current = llvm_load(c, c->byte_type, byte_ptr, alignment, "");
-- 
2.43.0


From 2011510e426d026b55d76ebfecf083b5c25b84f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:15 +0000
Subject: [PATCH 05/43] fix: do not lose writes made to a vector while one of
 its elements is assigned

v[0] = v[1] = 5 stored the vector as it was before the right hand side was
evaluated.
---
 src/compiler/llvm_codegen_expr.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index cb54d2f..91c1470 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -2251,6 +2251,9 @@ static inline void llvm_emit_pre_post_inc_dec_vector(GenContext *c, BEValue *val
 	// Now let's get the subscript
 	LLVMValueRef index = llvm_emit_vector_index(c, expr, vec);
 
+	// Evaluating the index may have changed the vector.
+	if (!exprid_is_pure(expr->subscript_expr.index.expr)) vector = llvm_load_value_store(c, &addr);
+
 	// We're now done, we can extract the current value:
 	BEValue current_res;
 	llvm_value_set(&current_res, LLVMBuildExtractElement(c->builder, vector, index, ""), element);
@@ -4395,6 +4398,10 @@ static void llvm_emit_vector_assign_expr(GenContext *c, BEValue *be_value, Expr
 	llvm_value_addr(c, &addr);
 
 	LLVMValueRef vector_value = llvm_load_value_store(c, &addr);
+
+	// Evaluating the right hand side may change the other elements, in that case the vector is loaded again.
+	bool reload = addr.type->array.len > 1 && !expr_is_pure(exprptr(expr->binary_expr.right));
+
 	if (is_swizzle)
 	{
 		if (addr.type->array.base == type_bool) vector_value = llvm_emit_trunc_bool(c, vector_value);
@@ -4415,6 +4422,11 @@ static void llvm_emit_vector_assign_expr(GenContext *c, BEValue *be_value, Expr
 		const char *sw_ptr = left->swizzle_expr.swizzle;
 		unsigned vec_len = be_value->type->array.len;
 		LLVMValueRef result = be_value->value;
+		if (reload)
+		{
+			vector_value = llvm_load_value_store(c, &addr);
+			if (addr.type->array.base == type_bool) vector_value = llvm_emit_trunc_bool(c, vector_value);
+		}
 		for (unsigned i = 0; i < vec_len; i++)
 		{
 			int index = (swizzle[(int)sw_ptr[i]] - 1) & 0xF;
@@ -4428,6 +4440,7 @@ static void llvm_emit_vector_assign_expr(GenContext *c, BEValue *be_value, Expr
 	}
 	// Emit the index
 	LLVMValueRef index_val = llvm_emit_vector_index(c, left, addr.type);
+	if (!exprid_is_pure(left->subscript_expr.index.expr)) vector_value = llvm_load_value_store(c, &addr);
 	if (binary_op > BINARYOP_ASSIGN)
 	{
 		BinaryOp base_op = binaryop_assign_base_op(binary_op);
@@ -4441,8 +4454,9 @@ static void llvm_emit_vector_assign_expr(GenContext *c, BEValue *be_value, Expr
 		llvm_emit_expr(c, be_value, exprptr(expr->binary_expr.right));
 	}
 
-	LLVMValueRef new_value = LLVMBuildInsertElement(c->builder, vector_value, llvm_load_value_store(c, be_value),
-	                                                index_val, "elemset");
+	LLVMValueRef element = llvm_load_value_store(c, be_value);
+	if (reload) vector_value = llvm_load_value_store(c, &addr);
+	LLVMValueRef new_value = LLVMBuildInsertElement(c->builder, vector_value, element, index_val, "elemset");
 	llvm_store_raw(c, &addr, new_value);
 
 }
-- 
2.43.0


From 2999354cbc53e5cb48b6487032cf42b3b2e3113a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:45 +0000
Subject: [PATCH 06/43] fix: let ++ and -- on vector elements wrap like on
 other integers

---
 src/compiler/llvm_codegen_expr.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index 91c1470..35b029e 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -2233,7 +2233,7 @@ static inline void llvm_emit_pre_post_inc_dec_bitstruct(GenContext *c, BEValue *
 /**
  * This method implements the common ++x and --x operators on vector elements
  */
-static inline void llvm_emit_pre_post_inc_dec_vector(GenContext *c, BEValue *value, Expr *expr, int diff, bool pre)
+static inline void llvm_emit_pre_post_inc_dec_vector(GenContext *c, BEValue *value, Expr *expr, int diff, bool allow_wrap, bool pre)
 {
 	// First grab the address
 	BEValue addr;
@@ -2259,7 +2259,7 @@ static inline void llvm_emit_pre_post_inc_dec_vector(GenContext *c, BEValue *val
 	llvm_value_set(&current_res, LLVMBuildExtractElement(c->builder, vector, index, ""), element);
 
 	// Calculate the new value.
-	LLVMValueRef new_value = llvm_emit_inc_dec_value(c, expr->span, &current_res, diff, false);
+	LLVMValueRef new_value = llvm_emit_inc_dec_value(c, expr->span, &current_res, diff, allow_wrap);
 
 	// We update the vector value.
 	vector = LLVMBuildInsertElement(c->builder, vector, new_value, index, "");
@@ -2278,7 +2278,7 @@ static inline void llvm_emit_pre_inc_dec(GenContext *c, BEValue *value, Expr *ex
 {
 	if (expr_is_vector_subscript(expr))
 	{
-		llvm_emit_pre_post_inc_dec_vector(c, value, expr, diff, true);
+		llvm_emit_pre_post_inc_dec_vector(c, value, expr, diff, allow_wrap, true);
 		return;
 	}
 	if (expr->expr_kind == EXPR_BITACCESS)
@@ -2361,7 +2361,7 @@ static inline void llvm_emit_post_inc_dec(GenContext *c, BEValue *value, Expr *e
 {
 	if (expr_is_vector_subscript(expr))
 	{
-		llvm_emit_pre_post_inc_dec_vector(c, value, expr, diff, false);
+		llvm_emit_pre_post_inc_dec_vector(c, value, expr, diff, allow_wrap, false);
 		return;
 	}
 	if (expr->expr_kind == EXPR_BITACCESS)
-- 
2.43.0


From a86d849abcc565906de33366a191e1b68c800559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:05 +0000
Subject: [PATCH 07/43] fix: reject negative and wrapping lengths of slices in
 safe builds

x[a:n] with a negative n, or with a + n wrapping, passed the end check and made
a slice with a huge length.
---
 src/compiler/llvm_codegen_expr.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index 35b029e..e9fb4b3 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -2743,6 +2743,13 @@ static void llvm_emit_slice_values(GenContext *c, Expr *slice, BEValue *parent_r
 		{
 			if (is_len_range)
 			{
+				// The end precedes the start if the length was negative or made the sum wrap.
+				if (range.range_type != RANGE_CONST_RANGE)
+				{
+					BEValue wrapped;
+					llvm_emit_int_comp(c, &wrapped, &start_index, &end_index, BINARYOP_GT);
+					llvm_emit_panic_if_true(c, &wrapped, "Invalid length", slice->span, "Invalid slice length (start %d, end %d)", &start_index, &end_index);
+				}
 				if (len.value)
 				{
 					BEValue excess;
-- 
2.43.0


From 8dbfb322327256ef9fb6802017441d5771ab366c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:03 +0000
Subject: [PATCH 08/43] fix: do not change a constant when a compile time
 variable initialised from it is modified

---
 src/compiler/sema_const.c | 2 ++
 src/compiler/sema_expr.c  | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/compiler/sema_const.c b/src/compiler/sema_const.c
index 9d63b81..2760943 100644
--- a/src/compiler/sema_const.c
+++ b/src/compiler/sema_const.c
@@ -229,6 +229,8 @@ static bool sema_append_const_array_one(SemaContext *context, Expr *expr, Expr *
 		expr_replace(expr, list);
 		return true;
 	}
+	// The list may be shared with the constant it was read from.
+	list = copy_expr_single(list);
 	bool is_slice = list->const_expr.const_kind == CONST_SLICE;
 	ASSERT(!type_is_inferred(array_type));
 	bool is_vector = array_type->type_kind == TYPE_VECTOR;
diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index b145923..f590fa7 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -5987,7 +5987,8 @@ static bool sema_expr_analyse_ct_subscript_set_value(SemaContext *context, Expr
 		RETURN_SEMA_ERROR(left, "Compile time variables may only be modified in the scope they are defined in.");
 	}
 	ArrayIndex index = left->ct_subscript_expr.index;
-	Expr *original_value = ct_var->var.init_expr;
+	// The value may be shared with the constant it was read from.
+	Expr *original_value = ct_var->var.init_expr = copy_expr_single(ct_var->var.init_expr);
 	ASSERT_SPAN(original_value, original_value->expr_kind == EXPR_CONST);
 	ExprConst *expr_const = &original_value->const_expr;
 
-- 
2.43.0


From 3a55d67412b7b9a552dac4b59864587c848b1637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:03 +0000
Subject: [PATCH 09/43] fix: keep the positions of elements when slicing a
 sparse constant array

---
 src/compiler/sema_expr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index f590fa7..7ffaa71 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -3841,7 +3841,9 @@ static inline void sema_slice_initializer(Expr *expr, Expr *subscripted, Range *
 					vec_erase_at(initializer->init_array.elements, i);
 					elements--;
 					i--;
+					continue;
 				}
+				element->init_array_value.index = index - range->start_index;
 			}
 			if (vec_size(initializer->init_array.elements) == 0)
 			{
-- 
2.43.0


From c8ac6aa6fa88e5581dcc8d59e512c84fed6ab2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:42 +0000
Subject: [PATCH 10/43] fix: reject constant slices that start inside an array
 but end outside it

---
 src/compiler/sema_expr.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index 7ffaa71..ce37675 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -3702,13 +3702,13 @@ INLINE bool sema_expr_analyse_range_internal(SemaContext *context, Range *range,
 		// Only ArrayIndex sized
 		if (!int_fits(start->const_expr.ixx, TYPE_I64))
 		{
-			RETURN_SEMA_ERROR(end, "The index cannot be stored in a 64-signed integer, which isn't supported.");
+			RETURN_SEMA_ERROR(start, "The index cannot be stored in a 64-signed integer, which isn't supported.");
 		}
 		// Only ArrayIndex sized
 		int64_t start_index = int_to_i64(start->const_expr.ixx);
 		if (range->start_from_end)
 		{
-			if (start_index < 0) RETURN_SEMA_ERROR(end, "Negative numbers are not allowed when indexing from the end.");
+			if (start_index < 0) RETURN_SEMA_ERROR(start, "Negative numbers are not allowed when indexing from the end.");
 			// Something like  ^1 .. 4 with an unknown length.
 			if (len < 0) return true;
 			// Otherwise we fold the "from end"
@@ -3764,9 +3764,10 @@ INLINE bool sema_expr_analyse_range_internal(SemaContext *context, Range *range,
 				}
 				break;
 			case RANGE_CONST_RANGE:
-				if (range->len_index > len)
+				if (range->len_index > len - range->start_index)
 				{
-					RETURN_SEMA_ERROR(end ? end : start, "End index out of bounds, was %d, exceeding max index %d.", range->len_index - 1, len - 1);
+					RETURN_SEMA_ERROR(end ? end : start, "End index out of bounds, was %lld, exceeding max index %lld.",
+									  (long long)range->start_index + range->len_index - 1, (long long)len - 1);
 				}
 				break;
 			default:
-- 
2.43.0


From 71797f26b2a4ba4bf455dd2fa3510c91150aa43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:38 +0000
Subject: [PATCH 11/43] fix: store copied children in the copy instead of in
 the original

---
 src/compiler/copying.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/compiler/copying.c b/src/compiler/copying.c
index e9d2992..5ff3823 100644
--- a/src/compiler/copying.c
+++ b/src/compiler/copying.c
@@ -297,8 +297,8 @@ Expr *copy_expr(CopyStruct *c, Expr *source_expr)
 	switch (source_expr->expr_kind)
 	{
 		case EXPR_TWO:
-			MACRO_COPY_EXPR(source_expr->two_expr.first);
-			MACRO_COPY_EXPR(source_expr->two_expr.last);
+			MACRO_COPY_EXPR(expr->two_expr.first);
+			MACRO_COPY_EXPR(expr->two_expr.last);
 			return expr;
 		case EXPR_TYPECALL:
 		case EXPR_CT_SUBSCRIPT:
@@ -333,8 +333,8 @@ Expr *copy_expr(CopyStruct *c, Expr *source_expr)
 			}
 			return expr;
 		case EXPR_MEMBER_GET:
-			fixup_decl(c, &source_expr->member_get_expr);
-			break;
+			fixup_decl(c, &expr->member_get_expr);
+			return expr;
 		case EXPR_SWIZZLE:
 			MACRO_COPY_EXPRID(expr->swizzle_expr.parent);
 			return expr;
@@ -655,7 +655,7 @@ RETRY:
 			}
 			break;
 		case AST_CONTRACT:
-			doc_ast_copy(c, &source->contract_stmt);
+			doc_ast_copy(c, &ast->contract_stmt);
 			break;
 		case AST_ASM_BLOCK_STMT:
 			if (ast->asm_block_stmt.is_string)
@@ -1085,31 +1085,31 @@ Decl *copy_decl(CopyStruct *c, Decl *decl)
 			MACRO_COPY_TYPE(copy->distinct);
 			break;
 		case DECL_CT_ECHO:
-			MACRO_COPY_AST(decl->ct_echo_decl);
+			MACRO_COPY_AST(copy->ct_echo_decl);
 			break;
 		case DECL_CT_ASSERT:
-			MACRO_COPY_AST(decl->ct_assert_decl);
+			MACRO_COPY_AST(copy->ct_assert_decl);
 			break;
 		case DECL_IMPORT:
 			break;
 		case DECL_MACRO:
 			MACRO_COPY_ASTID(copy->func_decl.docs);
-			MACRO_COPY_TYPEID(decl->func_decl.type_parent);
+			MACRO_COPY_TYPEID(copy->func_decl.type_parent);
 			copy_signature_deep(c, &copy->func_decl.signature);
-			MACRO_COPY_ASTID(decl->func_decl.body);
-			MACRO_COPY_DECLID(decl->func_decl.body_param);
+			MACRO_COPY_ASTID(copy->func_decl.body);
+			MACRO_COPY_DECLID(copy->func_decl.body_param);
 			break;
 		case DECL_ATTRIBUTE:
-			MACRO_COPY_DECL_LIST(decl->attr_decl.params);
-			decl->attr_decl.attrs = copy_attributes(c, decl->attr_decl.attrs);
+			MACRO_COPY_DECL_LIST(copy->attr_decl.params);
+			copy->attr_decl.attrs = copy_attributes(c, copy->attr_decl.attrs);
 			break;
 		case DECL_DEFINE:
 			if (decl->resolve_status == RESOLVE_DONE)
 			{
-				fixup_decl(c, &decl->define_decl.alias);
+				fixup_decl(c, &copy->define_decl.alias);
 				break;
 			}
-			MACRO_COPY_EXPR(decl->define_decl.alias_expr);
+			MACRO_COPY_EXPR(copy->define_decl.alias_expr);
 			break;
 	}
 	return copy;
-- 
2.43.0


From 043beb6b89534574becf521d47fe6084e5026a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:25 +0000
Subject: [PATCH 12/43] fix: copy the path of $offsetof and similar when
 expanding a macro

---
 src/compiler/copying.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compiler/copying.c b/src/compiler/copying.c
index 5ff3823..8b30c22 100644
--- a/src/compiler/copying.c
+++ b/src/compiler/copying.c
@@ -367,6 +367,7 @@ Expr *copy_expr(CopyStruct *c, Expr *source_expr)
 			return expr;
 		case EXPR_CT_CALL:
 			MACRO_COPY_EXPR(expr->ct_call_expr.main_var);
+			expr->ct_call_expr.flat_path = macro_copy_designator_list(c, expr->ct_call_expr.flat_path);
 			return expr;
 		case EXPR_TRY:
 			MACRO_COPY_EXPR(expr->try_expr.optional);
-- 
2.43.0


From d28de6142955922156bd729993ba81f1beb57cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:25 +0000
Subject: [PATCH 13/43] fix: copy the cleanup of a rethrow inside a defer

---
 src/compiler/copying.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compiler/copying.c b/src/compiler/copying.c
index 8b30c22..2067974 100644
--- a/src/compiler/copying.c
+++ b/src/compiler/copying.c
@@ -529,6 +529,7 @@ Expr *copy_expr(CopyStruct *c, Expr *source_expr)
 			return source_expr;
 		case EXPR_RETHROW:
 			MACRO_COPY_EXPR(expr->rethrow_expr.inner);
+			MACRO_COPY_ASTID(expr->rethrow_expr.cleanup);
 			return expr;
 		case EXPR_CONST:
 			return copy_const_expr(c, expr);
-- 
2.43.0


From ee616c30eccbda341755390aba7dbe5781cee10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:25 +0000
Subject: [PATCH 14/43] fix: copy the standard input of $exec

---
 src/compiler/copying.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compiler/copying.c b/src/compiler/copying.c
index 2067974..fa304a6 100644
--- a/src/compiler/copying.c
+++ b/src/compiler/copying.c
@@ -997,6 +997,7 @@ Decl *copy_decl(CopyStruct *c, Decl *decl)
 		case DECL_CT_EXEC:
 			MACRO_COPY_EXPR(copy->exec_decl.filename);
 			MACRO_COPY_EXPR_LIST(copy->exec_decl.args);
+			MACRO_COPY_EXPR(copy->exec_decl.stdin_string);
 			break;
 		case DECL_CT_INCLUDE:
 			MACRO_COPY_EXPR(copy->include.filename);
-- 
2.43.0


From 1ebf570d757fd9edb33d574de7f4120d795e00e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:47 +0000
Subject: [PATCH 15/43] fix: copy the operands of inline assembly together with
 its statements

---
 src/compiler/copying.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/compiler/copying.c b/src/compiler/copying.c
index fa304a6..33e7f90 100644
--- a/src/compiler/copying.c
+++ b/src/compiler/copying.c
@@ -456,18 +456,25 @@ Expr *copy_expr(CopyStruct *c, Expr *source_expr)
 			MACRO_COPY_EXPRID(expr->subscript_expr.index.expr);
 			return expr;
 		case EXPR_ASM:
+			copy_reg_ref(c, &source_expr->expr_asm_arg, &expr->expr_asm_arg);
 			switch (expr->expr_asm_arg.kind)
 			{
 				case ASM_ARG_REG:
+				case ASM_ARG_INT:
+					return expr;
 				case ASM_ARG_ADDROF:
 				case ASM_ARG_REGVAR:
-				case ASM_ARG_INT:
 				case ASM_ARG_MEMVAR:
+					// Before it is resolved this is a name, which is never found among the copied declarations.
+					fixup_decl(c, &expr->expr_asm_arg.ident.ident_decl);
 					return expr;
 				case ASM_ARG_VALUE:
-				case ASM_ARG_ADDR:
 					MACRO_COPY_EXPRID(expr->expr_asm_arg.expr_id);
 					return expr;
+				case ASM_ARG_ADDR:
+					MACRO_COPY_EXPRID(expr->expr_asm_arg.base);
+					MACRO_COPY_EXPRID(expr->expr_asm_arg.idx);
+					return expr;
 			}
 			UNREACHABLE
 		case EXPR_CT_CASTABLE:
@@ -627,6 +634,17 @@ void doc_ast_copy(CopyStruct *c, AstContractStmt *doc)
 	}
 }
 
+static ExprAsmArg **copy_asm_arg_refs(CopyStruct *c, ExprAsmArg **args)
+{
+	ExprAsmArg **result = NULL;
+	FOREACH(ExprAsmArg *, arg, args)
+	{
+		ExprAsmArg *copy = fixup(c, arg);
+		vec_add(result, copy ? copy : arg);
+	}
+	return result;
+}
+
 Ast *ast_copy_deep(CopyStruct *c, Ast *source)
 {
 	if (!source) return NULL;
@@ -670,6 +688,9 @@ RETRY:
 				*block = *ast->asm_block_stmt.block;
 				ast->asm_block_stmt.block = block;
 				MACRO_COPY_ASTID(block->asm_stmt);
+				// The inputs and outputs are arguments of the statements just copied.
+				block->output_vars = copy_asm_arg_refs(c, block->output_vars);
+				block->input = copy_asm_arg_refs(c, block->input);
 			}
 			break;
 		case AST_ASM_STMT:
-- 
2.43.0


From cf8bca1f480e02a7a1da96526e5a2a3ffd182a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:43 +0000
Subject: [PATCH 16/43] fix: copy a resolved nextcase together with the switch
 it jumps in

---
 src/compiler/compiler_internal.h |  1 +
 src/compiler/copying.c           | 31 ++++++++++++++++++++++++++++++-
 src/compiler/sema_stmts.c        |  5 +++++
 3 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/compiler/compiler_internal.h b/src/compiler/compiler_internal.h
index 5cc4186..a96e008 100644
--- a/src/compiler/compiler_internal.h
+++ b/src/compiler/compiler_internal.h
@@ -1369,6 +1369,7 @@ typedef struct
 typedef struct
 {
 	AstId defer_id;
+	bool is_resolved : 1;
 	union
 	{
 		struct
diff --git a/src/compiler/copying.c b/src/compiler/copying.c
index 33e7f90..4eb6949 100644
--- a/src/compiler/copying.c
+++ b/src/compiler/copying.c
@@ -634,6 +634,28 @@ void doc_ast_copy(CopyStruct *c, AstContractStmt *doc)
 	}
 }
 
+static Ast **copy_switch_cases(CopyStruct *c, Ast **cases)
+{
+	Ast **result = NULL;
+	// A 'nextcase' may jump to any case, so all of them must be known before the bodies are copied.
+	FOREACH(Ast *, source, cases)
+	{
+		Ast *copy = ast_copy(source);
+		copy_reg_ref(c, source, copy);
+		vec_add(result, copy);
+	}
+	FOREACH(Ast *, copy, result)
+	{
+		if (copy->ast_kind == AST_CASE_STMT)
+		{
+			MACRO_COPY_EXPRID(copy->case_stmt.expr);
+			MACRO_COPY_EXPRID(copy->case_stmt.to_expr);
+		}
+		MACRO_COPY_AST(copy->case_stmt.body);
+	}
+	return result;
+}
+
 static ExprAsmArg **copy_asm_arg_refs(CopyStruct *c, ExprAsmArg **args)
 {
 	ExprAsmArg **result = NULL;
@@ -786,6 +808,13 @@ RETRY:
 			MACRO_COPY_ASTID(ast->if_stmt.then_body);
 			break;
 		case AST_NEXTCASE_STMT:
+			if (ast->nextcase_stmt.is_resolved)
+			{
+				fixup_astid(c, &ast->nextcase_stmt.case_switch_stmt);
+				MACRO_COPY_EXPR(ast->nextcase_stmt.switch_expr);
+				MACRO_COPY_ASTID(ast->nextcase_stmt.defer_id);
+				break;
+			}
 			MACRO_COPY_EXPRID(ast->nextcase_stmt.expr);
 			break;
 		case AST_NOP_STMT:
@@ -802,7 +831,7 @@ RETRY:
 			SCOPE_FIXUP_START
 				copy_flow(c, ast);
 				MACRO_COPY_EXPRID(ast->switch_stmt.cond);
-				MACRO_COPY_AST_LIST(ast->switch_stmt.cases);
+				ast->switch_stmt.cases = copy_switch_cases(c, ast->switch_stmt.cases);
 			SCOPE_FIXUP_END;
 			break;
 	}
diff --git a/src/compiler/sema_stmts.c b/src/compiler/sema_stmts.c
index 0f66871..91373df 100644
--- a/src/compiler/sema_stmts.c
+++ b/src/compiler/sema_stmts.c
@@ -1995,6 +1995,7 @@ static bool sema_analyse_nextcase_stmt(SemaContext *context, Ast *statement)
 		if (!default_ast) RETURN_SEMA_ERROR(statement, "There is no 'default' in the switch to jump to.");
 		statement->nextcase_stmt.defer_id = context_get_defers(context, context->active_scope.defer_last, parent->switch_stmt.defer, true);
 		statement->nextcase_stmt.case_switch_stmt = astid(default_ast);
+		statement->nextcase_stmt.is_resolved = true;
 		statement->nextcase_stmt.switch_expr = NULL;
 		return true;
 	}
@@ -2006,6 +2007,7 @@ static bool sema_analyse_nextcase_stmt(SemaContext *context, Ast *statement)
 		ASSERT(context->next_target);
 		statement->nextcase_stmt.defer_id = context_get_defers(context, context->active_scope.defer_last, parent->switch_stmt.defer, true);
 		statement->nextcase_stmt.case_switch_stmt = astid(context->next_target);
+		statement->nextcase_stmt.is_resolved = true;
 		return true;
 	}
 
@@ -2035,6 +2037,7 @@ static bool sema_analyse_nextcase_stmt(SemaContext *context, Ast *statement)
 			if (sema_cast_const(expr) && expr->const_expr.typeid == type)
 			{
 				statement->nextcase_stmt.case_switch_stmt = astid(case_stmt);
+				statement->nextcase_stmt.is_resolved = true;
 				return true;
 			}
 		}
@@ -2060,6 +2063,7 @@ static bool sema_analyse_nextcase_stmt(SemaContext *context, Ast *statement)
 			if (expr_const_in_range(&value->const_expr, const_expr, to_const_expr))
 			{
 				statement->nextcase_stmt.case_switch_stmt = astid(case_stmt);
+				statement->nextcase_stmt.is_resolved = true;
 				return true;
 			}
 		}
@@ -2068,6 +2072,7 @@ static bool sema_analyse_nextcase_stmt(SemaContext *context, Ast *statement)
 	}
 VARIABLE_JUMP:
 	statement->nextcase_stmt.case_switch_stmt = astid(parent);
+	statement->nextcase_stmt.is_resolved = true;
 	statement->nextcase_stmt.switch_expr = value;
 	return true;
 }
-- 
2.43.0


From 05544d70fe448c873e6fda3eb0505e5d7bf829aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:33 +0000
Subject: [PATCH 17/43] fix: keep functions used by any contract of a called
 function, not only the first

---
 src/compiler/sema_liveness.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/sema_liveness.c b/src/compiler/sema_liveness.c
index 0139b02..6cd51b2 100644
--- a/src/compiler/sema_liveness.c
+++ b/src/compiler/sema_liveness.c
@@ -325,7 +325,7 @@ RETRY:
 				sema_trace_expr_liveness(exprptr(expr->call_expr.function));
 				return;
 			}
-			sema_trace_astid_liveness(expr->call_expr.function_contracts);
+			sema_trace_stmt_chain_liveness(expr->call_expr.function_contracts);
 			sema_trace_decl_liveness(declptr(expr->call_expr.func_ref));
 			return;
 		}
-- 
2.43.0


From f19c0d2d748056cff104c22b74efe6925a90c9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:33 +0000
Subject: [PATCH 18/43] fix: keep the dynamic methods of the element type of a
 vector

---
 src/compiler/sema_liveness.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/sema_liveness.c b/src/compiler/sema_liveness.c
index 6cd51b2..4b15d9b 100644
--- a/src/compiler/sema_liveness.c
+++ b/src/compiler/sema_liveness.c
@@ -24,6 +24,8 @@ RETRY:
 			case TYPE_ARRAY:
 			case TYPE_INFERRED_ARRAY:
 			case TYPE_FLEXIBLE_ARRAY:
+			case TYPE_VECTOR:
+			case TYPE_INFERRED_VECTOR:
 				type = type->array.base;
 				goto RETRY;
 			default:
-- 
2.43.0


From fb50eca380f7eb7b759d551b736e0dd7e6ca75ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:33 +0000
Subject: [PATCH 19/43] fix: keep dynamic methods that are added privately or
 locally to a type

---
 src/compiler/sema_liveness.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/compiler/sema_liveness.c b/src/compiler/sema_liveness.c
index 4b15d9b..2567c6f 100644
--- a/src/compiler/sema_liveness.c
+++ b/src/compiler/sema_liveness.c
@@ -515,6 +515,17 @@ RETRY:
 	UNREACHABLE
 }
 
+static void sema_trace_method_extensions(Decl **methods)
+{
+	FOREACH(Decl *, method, methods)
+	{
+		// Macros are always expanded where they are used.
+		if (method->decl_kind == DECL_MACRO) continue;
+		if (method->func_decl.attr_dynamic) method->no_strip = true;
+		if (method->is_export || method->no_strip) sema_trace_decl_liveness(method);
+	}
+}
+
 void sema_trace_liveness(void)
 {
 	if (compiler.context.main)
@@ -523,13 +534,10 @@ void sema_trace_liveness(void)
 	}
 	bool keep_tests = compiler.build.testing;
 	bool keep_benchmarks = compiler.build.benchmarking;
-	FOREACH(Decl *, function, compiler.context.method_extensions)
-	{
-		if (function->func_decl.attr_dynamic) function->no_strip = true;
-		if (function->is_export || function->no_strip) sema_trace_decl_liveness(function);
-	}
+	sema_trace_method_extensions(compiler.context.method_extensions);
 	FOREACH(Module *, module, compiler.context.module_list)
 	{
+		sema_trace_method_extensions(module->private_method_extensions);
 		FOREACH(CompilationUnit *, unit, module->units)
 		{
 			FOREACH(Decl *, function, unit->functions)
@@ -548,10 +556,7 @@ void sema_trace_liveness(void)
 			{
 				if (var->is_export || var->no_strip) sema_trace_decl_liveness(var);
 			}
-			FOREACH(Decl *, method, unit->local_method_extensions)
-			{
-				if (method->is_export || method->no_strip) sema_trace_decl_liveness(method);
-			}
+			sema_trace_method_extensions(unit->local_method_extensions);
 		}
 	}
 }
-- 
2.43.0


From 1a9f346f92c329140e285559bca716175f8f23b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:17 +0000
Subject: [PATCH 20/43] fix: allow every ordinal in from_ordinal when the
 integer type is narrow

---
 src/compiler/llvm_codegen_expr.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index e9fb4b3..8e82d92 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -6918,11 +6918,16 @@ void llvm_emit_enum_from_ord(GenContext *c, BEValue *value, Expr *expr)
 			llvm_emit_int_comp_zero(c, &check, value, BINARYOP_LT);
 			llvm_emit_panic_on_true(c, check.value, "Attempt to convert negative value to enum failed.", expr->span, scratch_buffer_copy(), value, NULL);
 		}
-		scratch_buffer_clear();
-		scratch_buffer_printf("Attempting to convert %%d to enum '%s' failed as the value exceeds the max ordinal (%u).", decl->name, max - 1);
-		LLVMValueRef val = llvm_const_int(c, value->type, max);
-		llvm_emit_int_comp_raw(c, &check, value->type, value->type, value->value, val, BINARYOP_GE);
-		llvm_emit_panic_on_true(c, check.value, "Failed integer to enum conversion", expr->span, scratch_buffer_copy(), value, NULL);
+		// If the type cannot represent "max", then no value can exceed the last ordinal.
+		BitSize value_bits = type_bit_size(value->type) - (type_is_signed(value->type) ? 1 : 0);
+		if (value_bits >= 32 || max < (1U << value_bits))
+		{
+			scratch_buffer_clear();
+			scratch_buffer_printf("Attempting to convert %%d to enum '%s' failed as the value exceeds the max ordinal (%u).", decl->name, max - 1);
+			LLVMValueRef val = llvm_const_int(c, value->type, max);
+			llvm_emit_int_comp_raw(c, &check, value->type, value->type, value->value, val, BINARYOP_GE);
+			llvm_emit_panic_on_true(c, check.value, "Failed integer to enum conversion", expr->span, scratch_buffer_copy(), value, NULL);
+		}
 	}
 	// We might need to extend or truncate.
 	Type *to_type = type_lowering(expr->type);
-- 
2.43.0


From e9fc5c778a179e53af5fc137a089ee47608ab44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:49 +0000
Subject: [PATCH 21/43] fix: convert constant boolean vectors to the element
 type of the target

---
 src/compiler/sema_casts.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/compiler/sema_casts.c b/src/compiler/sema_casts.c
index 76136ba..9647a02 100644
--- a/src/compiler/sema_casts.c
+++ b/src/compiler/sema_casts.c
@@ -1563,14 +1563,16 @@ static void vector_const_initializer_convert_to_type(ConstInitializer *initializ
 		case CONST_INIT_VALUE:
 		{
 			Type *to_flat = type_flatten(to_type);
-			bool is_neg_conversion = to_flat && initializer->type == type_bool;
+			bool is_neg_conversion = type_is_integer(to_flat) && type_flatten(initializer->type) == type_bool;
 			if (is_neg_conversion)
 			{
 				bool is_true = initializer->init_value->const_expr.b;
+				Int all_ones = { .i = { UINT64_MAX, UINT64_MAX }, .type = TYPE_I128 };
+				Int zero = { .i = { 0, 0 }, .type = TYPE_I128 };
 				initializer->init_value->const_expr = (ExprConst)
 						{
 							.const_kind = CONST_INTEGER,
-							.ixx = (Int) { .i = is_true ? (Int128) { UINT64_MAX, UINT64_MAX } : (Int128) { 0, 0 }, .type = to_flat->type_kind },
+							.ixx = int_conv(is_true ? all_ones : zero, to_flat->type_kind),
 						};
 				initializer->init_value->type = to_type;
 			}
-- 
2.43.0


From f3577ca4b174f34053944d40472daa985fb0f2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:19 +0000
Subject: [PATCH 22/43] fix: convert vectors of distinct types and of pointers
 element by element

---
 src/compiler/sema_casts.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/compiler/sema_casts.c b/src/compiler/sema_casts.c
index 9647a02..bbc4d38 100644
--- a/src/compiler/sema_casts.c
+++ b/src/compiler/sema_casts.c
@@ -1786,9 +1786,8 @@ static void cast_vec_to_vec(Expr *expr, Type *to_type)
 	{
 		// Extract indexed types.
 		Type *from_type = type_flatten(expr->type);
-		Type *from_element = from_type->array.base;
-		to_type = type_flatten(to_type);
-		Type *to_element = to_type->array.base;
+		Type *from_element = type_flatten(from_type->array.base);
+		Type *to_element = type_flatten(type_flatten(to_type)->array.base);
 
 		// float vec -> float/int/bool vec
 		if (type_is_float(from_element))
@@ -1849,13 +1848,14 @@ static void cast_vec_to_vec(Expr *expr, Type *to_type)
 					return;
 				}
 				case ALL_INTS:
-					expr_rewrite_ext_trunc(expr, to_type, type_is_signed(type_flatten_to_int(expr->type)));
+					expr_rewrite_ext_trunc(expr, to_type, type_is_signed(from_element));
 					return;
 				case TYPE_POINTER:
 				case TYPE_FUNC_PTR:
 				case TYPE_TYPEID:
 				case TYPE_ANYFAULT:
 					expr_rewrite_to_int_to_ptr(expr, to_type);
+					return;
 				default:
 					UNREACHABLE;
 			}
@@ -1875,7 +1875,7 @@ static void cast_vec_to_vec(Expr *expr, Type *to_type)
 				return;
 			}
 			case ALL_INTS:
-				expr_rewrite_to_int_to_ptr(expr, to_type);
+				expr_rewrite_to_ptr_to_int(expr, to_type);
 				return;
 			case TYPE_POINTER:
 			case TYPE_FUNC_PTR:
-- 
2.43.0


From 38e2339e386634b995b282a76747967fd2db9046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:19 +0000
Subject: [PATCH 23/43] fix: convert faults to pointers

---
 src/compiler/sema_casts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/sema_casts.c b/src/compiler/sema_casts.c
index bbc4d38..0c27700 100644
--- a/src/compiler/sema_casts.c
+++ b/src/compiler/sema_casts.c
@@ -2342,7 +2342,7 @@ CastFunction cast_function[CONV_LAST + 1][CONV_LAST + 1] = {
  {XX2VO,      0, EN2XX, EN2XX, EN2XX, EN2XX, EN2XX, EN2XX, EN2XX, EN2XX, EN2XX, EN2XX, EN2XX, EN2XX, EN2XX, EN2XX, EN2XX, EN2XX, EN2XX, EN2XX, EN2XX, EN2XX, EN2XX     }, // ENUM
  {XX2VO,      0, PT2BO, PT2IN,     0,     0,     0, EX2VC,     0,     0,     0,     0,     0,     0,     0,     0, PT2PT,     0,     0, PT2PT,     0,     0,     0     }, // FUNC
  {XX2VO,      0, TI2BO, TI2IN,     0, TI2PT,     0, EX2VC,     0,     0,     0,     0,     0,     0,     0,     0,     0,     0,     0, TI2PT, TI2PT,     0,     0     }, // TYPEID
- {XX2VO,      0, AF2BO, FA2IN,     0, FA2IN,     0, EX2VC,     0,     0,     0,     0,     0,     0,     0,     0,     0,     0,     0, FA2IN, FA2IN,     0,     0     }, // ANYFAULT
+ {XX2VO,      0, AF2BO, FA2IN,     0, FA2PT,     0, EX2VC,     0,     0,     0,     0,     0,     0,     0,     0,     0,     0,     0, FA2PT, FA2PT,     0,     0     }, // ANYFAULT
  {XX2VO,      0, PT2BO, PT2IN,     0, PT2PT,     0, EX2VC,     0,     0,     0,     0,     0,     PT2AY, PT2AY, 0, PT2PT,     0,     0,     0, PT2PT,     0,     0     }, // VOIDPTR
  {XX2VO,      0, PT2BO, PT2IN,     0, PT2PT, AP2SL, EX2VC,     0,     0,     0,     0,     0,     PT2AY, PT2AY, 0,     0,     0,     0, PT2PT, PT2PT, PT2FE,     0     }, // ARRAYPTR
  {    0,      0,     0,     0,     0,     0,     0,     0,     0,     0,     0,     0,     0,     0,     0,     0,     0,     0,     0,     0,     0,     0,     0     }, // INFERRED
-- 
2.43.0


From de8b119bedc27645b72b1ae4f2f8ef4f9b93f0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:46 +0000
Subject: [PATCH 24/43] fix: convert between floating point formats of the same
 size

---
 src/compiler/llvm_codegen_expr.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index 8e82d92..49398d9 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -6888,6 +6888,12 @@ static void llvm_emit_ext_trunc(GenContext *c, BEValue *value, Expr *expr)
 	LLVMValueRef val;
 	if (type_is_floatlike(to_type))
 	{
+		if (type_size(to_type) == type_size(value->type))
+		{
+			// There is no direct conversion between different formats of the same size.
+			Type *wide = to_type->type_kind == TYPE_VECTOR ? type_get_vector(type_float, to_type->array.len) : type_float;
+			llvm_value_set(value, LLVMBuildFPExt(c->builder, value->value, llvm_get_type(c, wide), "fpfpext"), wide);
+		}
 		val = type_convert_will_trunc(to_type, value->type)
 		      ? LLVMBuildFPTrunc(c->builder, value->value, llvm_get_type(c, to_type), "fpfptrunc")
 		      : LLVMBuildFPExt(c->builder, value->value, llvm_get_type(c, to_type), "fpfpext");
-- 
2.43.0


From 398ac1f30024899264700976a0dc572fa8379e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:15 +0000
Subject: [PATCH 25/43] fix: keep the range check and the integer conversion of
 from_ordinal when its ordinal is taken

---
 src/compiler/sema_expr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index ce37675..df3e925 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -2790,7 +2790,9 @@ void sema_expr_convert_enum_to_int(Expr *expr)
 	}
 	if (expr->expr_kind == EXPR_ENUM_FROM_ORD)
 	{
-		*expr = *expr->inner_expr;
+		// Retain the conversion: it checks the range and the value may be of another integer type.
+		expr_rewrite_rvalue(expr, type_add_optional(underlying_type, IS_OPTIONAL(expr)));
+		return;
 	}
 	expr->type = type_add_optional(underlying_type, IS_OPTIONAL(expr));
 }
-- 
2.43.0


From 956c1d6ba4486e5346b3bbd7a41df80e36677471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:34 +0000
Subject: [PATCH 26/43] fix: store boolean vectors converted to arrays as bytes

---
 src/compiler/llvm_codegen_expr.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index 49398d9..5e4e493 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -6963,12 +6963,13 @@ void llvm_emit_scalar_to_vector(GenContext *c, BEValue *value, Expr *expr)
 static inline void llvm_emit_vector_to_array(GenContext *c, BEValue *value, Expr *expr)
 {
 	llvm_emit_expr(c, value, expr->inner_expr);
-	llvm_value_rvalue(c, value);
+	// Use the storage form, as boolean elements are stored as bytes.
+	LLVMValueRef vector = llvm_load_value_store(c, value);
 	Type *to_type = type_lowering(expr->type);
 	LLVMValueRef array = llvm_get_undef(c, to_type);
 	for (unsigned i = 0; i < to_type->array.len; i++)
 	{
-		LLVMValueRef element = llvm_emit_extract_value(c, value->value, i);
+		LLVMValueRef element = llvm_emit_extract_value(c, vector, i);
 		array = llvm_emit_insert_value(c, array, element, i);
 	}
 	llvm_value_set(value, array, to_type);
-- 
2.43.0


From 31ccafd0f7e8a91d841cef16ab6c7743dec39ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:33 +0000
Subject: [PATCH 27/43] fix: do not implicitly widen an operation behind a
 force unwrap

---
 src/compiler/expr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compiler/expr.c b/src/compiler/expr.c
index 6a6212d..ebe07f9 100644
--- a/src/compiler/expr.c
+++ b/src/compiler/expr.c
@@ -930,6 +930,9 @@ bool expr_is_simple(Expr *expr, bool to_float)
 		case EXPR_RETHROW:
 			expr = expr->rethrow_expr.inner;
 			goto RETRY;
+		case EXPR_FORCE_UNWRAP:
+			expr = expr->inner_expr;
+			goto RETRY;
 		default:
 			return true;
 		case EXPR_BINARY:
-- 
2.43.0


From 57432ba42e4cedefaef69670cf4d233ed4718005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:20 +0000
Subject: [PATCH 28/43] fix: wrap the folded quotient to the type of the
 division

`int.min / -1` folded to a constant of type int with the value 2147483648.
---
 src/compiler/bigint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/bigint.c b/src/compiler/bigint.c
index 82efb18..d0b874f 100644
--- a/src/compiler/bigint.c
+++ b/src/compiler/bigint.c
@@ -818,7 +818,7 @@ Int int_div(Int op1, Int op2)
 	{
 		res = i128_udiv(op1.i, op2.i);
 	}
-	return (Int){ res, op1.type };
+	return (Int){ i128_extend(res, op1.type), op1.type };
 }
 
 Int int_rem(Int op1, Int op2)
-- 
2.43.0


From ad0469ee80c7f28153474c30633b298f921e1f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:20 +0000
Subject: [PATCH 29/43] fix: honour the operator when comparing constant faults
 and references

`ABC != DEF` folded to the same value as `ABC == DEF`.
---
 src/compiler/number.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/compiler/number.c b/src/compiler/number.c
index 3cc1530..ee33906 100644
--- a/src/compiler/number.c
+++ b/src/compiler/number.c
@@ -137,11 +137,12 @@ bool expr_const_compare(const ExprConst *left, const ExprConst *right, BinaryOp
 			return int_comp(left->ixx, right->ixx, op);
 		case CONST_FAULT:
 			ASSERT(right->const_kind == CONST_FAULT);
-			return decl_flatten(right->fault) == decl_flatten(left->fault);
+			is_eq = decl_flatten(right->fault) == decl_flatten(left->fault);
+			goto RETURN;
 		case CONST_REF:
 			ASSERT(right->const_kind == CONST_POINTER || right->const_kind == CONST_REF);
-			if (right->const_kind == CONST_POINTER) return false;
-			return decl_flatten(right->global_ref) == decl_flatten(left->global_ref);
+			is_eq = right->const_kind == CONST_REF && decl_flatten(right->global_ref) == decl_flatten(left->global_ref);
+			goto RETURN;
 		case CONST_FLOAT:
 			return compare_fps(left->fxx.f, right->fxx.f, op);
 		case CONST_POINTER:
-- 
2.43.0


From e4a86694615a9575568a73950dea622e5ddb3b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:20 +0000
Subject: [PATCH 30/43] fix: compare constant strings past an embedded zero
 byte

---
 src/compiler/number.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/number.c b/src/compiler/number.c
index ee33906..482d993 100644
--- a/src/compiler/number.c
+++ b/src/compiler/number.c
@@ -162,7 +162,7 @@ bool expr_const_compare(const ExprConst *left, const ExprConst *right, BinaryOp
 				is_eq = true;
 				goto RETURN;
 			}
-			is_eq = !strncmp(left->bytes.ptr, right->bytes.ptr, left->bytes.len);
+			is_eq = !memcmp(left->bytes.ptr, right->bytes.ptr, left->bytes.len);
 			goto RETURN;
 		case CONST_TYPEID:
 			is_eq = left->typeid == right->typeid;
-- 
2.43.0


From 79ba8e8b77b99dd7f62f0d911da1f55fdfb9131d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:20 +0000
Subject: [PATCH 31/43] fix: keep the sign when folding int128.min to floating
 point

---
 src/compiler/bigint.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/bigint.c b/src/compiler/bigint.c
index d0b874f..0134e9a 100644
--- a/src/compiler/bigint.c
+++ b/src/compiler/bigint.c
@@ -491,9 +491,9 @@ Real i128_to_float(Int128 op)
 
 Real i128_to_float_signed(Int128 op)
 {
-	if ((int64_t)op.high < 0 && (op.high != INT128_MIN.high || op.low != INT128_MIN.low))
+	if ((int64_t)op.high < 0)
 	{
-		return -i128_to_float_signed(i128_neg(op));
+		return -i128_to_float(i128_neg(op));
 	}
 	return (Real)op.low + (Real)ldexp((double)op.high, 64);
 }
-- 
2.43.0


From 63f0932efb5538d2f49bdbb3b172b211946ddc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:28 +0000
Subject: [PATCH 32/43] fix: keep the length of a sliced constant string with
 zero bytes

---
 src/compiler/sema_expr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index df3e925..8804e4f 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -3902,6 +3902,8 @@ static inline bool sema_expr_analyse_slice(SemaContext *context, Expr *expr, Che
 			{
 				const char *data = str_copy(subscripted->const_expr.bytes.ptr + range->start_index, range->len_index);
 				expr_rewrite_const_string(expr, data);
+				// The text may contain zero bytes.
+				expr->const_expr.bytes.len = range->len_index;
 				return true;
 			}
 			case CONST_BYTES:
-- 
2.43.0


From 3768869a9aa6cbd2da4638e7d3a8beeb17783cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:28 +0000
Subject: [PATCH 33/43] fix: reject constant slices with a negative length or
 an end far past the array

`p[0:-1]` made a slice with a negative length and `a[0..0x7fff_ffff_ffff]`
reached an assertion in the code generator.
---
 src/compiler/sema_expr.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index 8804e4f..45d4c91 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -3687,6 +3687,14 @@ INLINE bool sema_expr_analyse_range_internal(SemaContext *context, Range *range,
 		{
 			RETURN_SEMA_ERROR(end, "An index may only be negative for pointers (it was: %lld).", end_index);
 		}
+		if (end_index < 0 && range->is_len)
+		{
+			RETURN_SEMA_ERROR(end, "The length may not be negative (it was: %lld).", (long long)end_index);
+		}
+		if (len > -1 && end_index > MAX_ARRAYINDEX)
+		{
+			RETURN_SEMA_ERROR(end, "End index out of bounds, was %lld, exceeding max index %lld.", (long long)end_index, (long long)len - 1);
+		}
 		// No more analysis
 		if (end_index > MAX_ARRAYINDEX || end_index < -MAX_ARRAYINDEX) return true;
 		range->const_end = end_index;
-- 
2.43.0


From debc10b8d886cfacfb88e74c84a053a9c7cd6cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:26 +0000
Subject: [PATCH 34/43] fix: check the whole constant index of a slice, not its
 low 32 bits

`slice[-4294967296L]` was accepted, `slice[2147483648]` was rejected.
---
 src/compiler/sema_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index 45d4c91..462460e 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -3073,7 +3073,7 @@ static bool sema_slice_index_is_in_range(SemaContext *context, Type *type, Expr
 	{
 		RETURN_SEMA_ERROR(index_expr, "Negative numbers are not allowed when indexing from the end.");
 	}
-	ArrayIndex idx = (ArrayIndex)index.i.low;
+	int64_t idx = int_to_i64(index);
 RETRY:;
 	switch (type->type_kind)
 	{
-- 
2.43.0


From 2ce09cb8f5da3aad77e397d705ff5bbb12b5fd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:30 +0000
Subject: [PATCH 35/43] fix: check the constant start of a slice whose end
 cannot be folded

`slice[-1..^1]` was accepted.
---
 src/compiler/sema_expr.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index 462460e..01b3412 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -3674,7 +3674,7 @@ INLINE bool sema_expr_analyse_range_internal(SemaContext *context, Range *range,
 		{
 			if (end_index < 0) RETURN_SEMA_ERROR(end, "Negative numbers are not allowed when indexing from the end.");
 			// Something like  1 .. ^4 with an unknown length.
-			if (len < 0) return true;
+			if (len < 0) goto CHECK_START;
 			// Otherwise we fold the "from end"
 			end_index = len - end_index;
 			if (end_index < 0)
@@ -3695,8 +3695,8 @@ INLINE bool sema_expr_analyse_range_internal(SemaContext *context, Range *range,
 		{
 			RETURN_SEMA_ERROR(end, "End index out of bounds, was %lld, exceeding max index %lld.", (long long)end_index, (long long)len - 1);
 		}
-		// No more analysis
-		if (end_index > MAX_ARRAYINDEX || end_index < -MAX_ARRAYINDEX) return true;
+		// No more analysis of the end
+		if (end_index > MAX_ARRAYINDEX || end_index < -MAX_ARRAYINDEX) goto CHECK_START;
 		range->const_end = end_index;
 		range->range_type = range->is_len ? RANGE_CONST_LEN : RANGE_CONST_END;
 	}
@@ -3707,6 +3707,7 @@ INLINE bool sema_expr_analyse_range_internal(SemaContext *context, Range *range,
 		range->range_type = RANGE_CONST_END;
 	}
 
+CHECK_START:
 	if (sema_cast_const(start))
 	{
 		// Only ArrayIndex sized
-- 
2.43.0


From 7b8d0ab317e115ea361d825ddf86e43f29eb84ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:13 +0000
Subject: [PATCH 36/43] fix: --memory-env with an unknown value compared it
 with a null name

---
 src/build/build_internal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/build/build_internal.h b/src/build/build_internal.h
index e17cf32..2f3b53b 100644
--- a/src/build/build_internal.h
+++ b/src/build/build_internal.h
@@ -29,7 +29,7 @@ static const char *trust_level[3] = {
 	[TRUST_FULL] = "full",
 };
 
-static const char *memory_environment[6] = {
+static const char *memory_environment[4] = {
 	[MEMORY_ENV_NORMAL] = "normal",
 	[MEMORY_ENV_SMALL] = "small",
 	[MEMORY_ENV_TINY] = "tiny",
-- 
2.43.0


From 76ee826f0a0c4dfe53801cd69877dfd7002bf54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:13 +0000
Subject: [PATCH 37/43] fix: 'dist' cleans and builds the target, it does not
 run it

---
 src/build/build_options.c | 2 +-
 src/compiler/compiler.c   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/build/build_options.c b/src/build/build_options.c
index 2bca267..f3b94c1 100644
--- a/src/build/build_options.c
+++ b/src/build/build_options.c
@@ -450,7 +450,7 @@ static void parse_command(BuildOptions *options)
 	}
 	if (arg_match("dist"))
 	{
-		options->command = COMMAND_CLEAN_RUN;
+		options->command = COMMAND_DIST;
 		parse_optional_target(options);
 		return;
 	}
diff --git a/src/compiler/compiler.c b/src/compiler/compiler.c
index 0984947..b692c15 100644
--- a/src/compiler/compiler.c
+++ b/src/compiler/compiler.c
@@ -868,7 +868,7 @@ void compile_file_list(BuildOptions *options)
 		OUTF("] Completed.\n.");
 		return;
 	}
-	if (options->command == COMMAND_CLEAN_RUN)
+	if (options->command == COMMAND_CLEAN_RUN || options->command == COMMAND_DIST)
 	{
 		clean_obj_files();
 	}
-- 
2.43.0


From 66f1a340c2d0061f583134d600d51b4fcff2c1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:13 +0000
Subject: [PATCH 38/43] fix: 'benchmark' accepts the documented target

---
 src/build/build_options.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/build/build_options.c b/src/build/build_options.c
index f3b94c1..0157250 100644
--- a/src/build/build_options.c
+++ b/src/build/build_options.c
@@ -417,6 +417,7 @@ static void parse_command(BuildOptions *options)
 	{
 		options->command = COMMAND_BENCHMARK;
 		options->benchmarking = true;
+		parse_optional_target(options);
 		return;
 	}
 	if (arg_match("test"))
-- 
2.43.0


From a5ff27ef6cda8489a53928658d1903cffadd7610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:13 +0000
Subject: [PATCH 39/43] fix: reject invalid values for --threads and --symtab
 instead of using them

---
 src/build/build_options.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/build/build_options.c b/src/build/build_options.c
index 0157250..d2a3d52 100644
--- a/src/build/build_options.c
+++ b/src/build/build_options.c
@@ -771,7 +771,7 @@ static void parse_option(BuildOptions *options)
 				if (at_end() || next_is_opt()) error_exit("error: --symtab needs a valid integer.");
 				const char *symtab_string = next_arg();
 				int symtab = atoi(symtab_string);
-				if (symtab < 1024) PRINTF("Expected a valid positive integer >= 1024.");
+				if (symtab < 1024) error_exit("error: --symtab expects a valid positive integer >= 1024.");
 				options->symtab_size = next_highest_power_of_2(symtab);
 				return;
 			}
@@ -976,8 +976,8 @@ static void parse_option(BuildOptions *options)
 				if (at_end() || next_is_opt()) error_exit("error: --threads needs a valid integer 1 or higher.");
 				const char *thread_string = next_arg();
 				int threads = atoi(thread_string);
-				if (threads < 1) PRINTF("Expected a valid integer 1 or higher.");
-				if (threads > MAX_THREADS) PRINTF("Cannot exceed %d threads.", MAX_THREADS);
+				if (threads < 1) error_exit("error: --threads expects a valid integer 1 or higher.");
+				if (threads > MAX_THREADS) error_exit("error: --threads cannot exceed %d threads.", MAX_THREADS);
 				options->build_threads = threads;
 				return;
 			}
-- 
2.43.0


From c94ff1547a5d7b48d4b1b7d13ae743c7f8d8664a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:13 +0000
Subject: [PATCH 40/43] fix: more than 1024 -l, -L or --lib options wrote past
 the end of a fixed array

---
 src/build/build_options.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/build/build_options.c b/src/build/build_options.c
index d2a3d52..5aed3e7 100644
--- a/src/build/build_options.c
+++ b/src/build/build_options.c
@@ -674,6 +674,7 @@ static void parse_option(BuildOptions *options)
 			if (match_shortopt("L"))
 			{
 				if (at_end() || next_is_opt()) error_exit("error: -L needs a directory.");
+				if (options->linker_lib_dir_count == MAX_BUILD_LIB_DIRS) error_exit("Max %d -L directories may be specified.", MAX_BUILD_LIB_DIRS);
 				options->linker_lib_dir[options->linker_lib_dir_count++] = check_dir(next_arg());
 				return;
 			}
@@ -682,6 +683,7 @@ static void parse_option(BuildOptions *options)
 			if (match_shortopt("l"))
 			{
 				if (at_end() || next_is_opt()) error_exit("error: -l needs a library name.");
+				if (options->linker_lib_count == MAX_BUILD_LIB_DIRS) error_exit("Max %d -l libraries may be specified.", MAX_BUILD_LIB_DIRS);
 				options->linker_libs[options->linker_lib_count++] = next_arg();
 				return;
 			}
@@ -1186,6 +1188,7 @@ static void parse_option(BuildOptions *options)
 					}
 					error_exit("Invalid library name '%s', it should be something like 'foo_lib'.", name_copy);
 				}
+				if (options->lib_count == MAX_BUILD_LIB_DIRS) error_exit("Max %d libraries may be specified.", MAX_BUILD_LIB_DIRS);
 				options->libs[options->lib_count++] = name;
 				return;
 			}
-- 
2.43.0


From 416d0b451460d0f2148e52b53d9da9d47ee0ada4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:25 +0000
Subject: [PATCH 41/43] fix: --script-dir was accepted but never used

---
 src/build/builder.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/build/builder.c b/src/build/builder.c
index 75595b5..669ea2e 100644
--- a/src/build/builder.c
+++ b/src/build/builder.c
@@ -399,6 +399,7 @@ static void update_build_target_from_options(BuildTarget *target, BuildOptions *
 	set_if_updated(target->feature.pass_win64_simd_as_arrays, options->win_64_simd);
 
 	OVERRIDE_IF_SET(output_dir);
+	OVERRIDE_IF_SET(script_dir);
 	OVERRIDE_IF_SET(panicfn);
 	OVERRIDE_IF_SET(testfn);
 	OVERRIDE_IF_SET(benchfn);
-- 
2.43.0


From 5ae812c50ab25dc0f9f3a6d3b291309473387da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:25 +0000
Subject: [PATCH 42/43] fix: --no-headers was ignored by 'static-lib' and
 'dynamic-lib'

---
 src/build/builder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/build/builder.c b/src/build/builder.c
index 669ea2e..3a0fc12 100644
--- a/src/build/builder.c
+++ b/src/build/builder.c
@@ -331,7 +331,7 @@ static void update_build_target_from_options(BuildTarget *target, BuildOptions *
 			break;
 		case COMMAND_STATIC_LIB:
 		case COMMAND_DYNAMIC_LIB:
-			target->output_headers = true;
+			target->output_headers = !options->no_headers;
 			break;
 		default:
 			target->output_headers = false;
-- 
2.43.0


From 3479e6f94fb962175cfd956d5a8a1d2f0ebe37a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:25 +0000
Subject: [PATCH 43/43] fix: -O5 and -Os now select what the help text says
 they select

-O5 is documented without backtrace, -Os as single module without debug
info; both kept the defaults.
---
 src/build/builder.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/build/builder.c b/src/build/builder.c
index 3a0fc12..fc018d7 100644
--- a/src/build/builder.c
+++ b/src/build/builder.c
@@ -181,17 +181,20 @@ void update_build_target_with_opt_level(BuildTarget *target, OptimizationSetting
 			optlevel = OPTIMIZATION_AGGRESSIVE;
 			panic_level = PANIC_OFF;
 			safety_level = SAFETY_OFF;
+			show_backtrace = SHOW_BACKTRACE_OFF;
 			single_module = SINGLE_MODULE_ON;
 			slp_vectorization = VECTORIZATION_ON;
 			unroll_loops = UNROLL_LOOPS_ON;
 			vectorization = VECTORIZATION_ON;
 			break;
 		case OPT_SETTING_OSMALL:
+			debug = DEBUG_INFO_NONE;
 			merge_functions = MERGE_FUNCTIONS_ON;
 			optlevel = OPTIMIZATION_MORE;
 			optsize = SIZE_OPTIMIZATION_SMALL;
 			panic_level = PANIC_OFF;
 			safety_level = SAFETY_OFF;
+			single_module = SINGLE_MODULE_ON;
 			slp_vectorization = VECTORIZATION_ON;
 			vectorization = VECTORIZATION_ON;
 			break;
-- 
2.43.0

