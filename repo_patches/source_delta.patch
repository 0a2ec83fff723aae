From 16ad0177e7ad2dd57b36cc9c7ff420b1a8a6a064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:32 +0000
Subject: [PATCH 001/157] fix: accept converting a negative floating constant
 to _Bool or, if it truncates to zero, to an unsigned type

---
 src/parse.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 5056f2e..8382046 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -323,7 +323,8 @@ func void push_cast(struct context *context, enum ast_kind lhs_or_rhs, struct as
                     invalid_default_case();
                 }
             }else{
-                if(f_value < 0.0){
+                // The conversion truncates towards zero and a conversion to '_Bool' compares against zero.
+                if(f_value <= -1.0 && cast_to != &globals.typedef_Bool){
                     report_error(context, cast_what->token, "Cast from negative a floating point number to an unsigned type is illegal.");
                 }
                 
-- 
2.43.0


From 4d4f0a9e6175183156ab94eb983dc7d3ff90c395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:32 +0000
Subject: [PATCH 002/157] fix: shift of a global by a constant used an address
 off by one (rip displacement ignored the immediate)

---
 src/emit_x64.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index 1f03a6c..3a92a0d 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -2138,14 +2138,15 @@ func struct emit_location *emit_shift_or_rotate__internal(struct context *contex
         }
         
         if(compound){
-            emit_register_relative_extended(context, prefixes, one_byte_opcode(inst), reg_extension, lhs_loc);
+            // @note: The immediate has to be part of the instruction, if 'lhs_loc' is rip-relative the displacement is relative to the end of the instruction.
+            emit_register_relative_immediate(context, prefixes, one_byte_opcode(inst), reg_extension, lhs_loc, rhs_loc);
             ret = lhs_loc;
         }else{
             struct emit_location *lhs = emit_load_gpr(context, lhs_loc);
             emit_reg_extended_op(context, prefixes, one_byte_opcode(inst), reg_extension, lhs);
+            emit(rhs_loc->value);
             ret = lhs;
         }
-        emit(rhs_loc->value);
     }else{
         struct emit_location *rhs;
         if(rhs_loc->state == EMIT_LOCATION_loaded && rhs_loc->loaded_register == REGISTER_C){
-- 
2.43.0


From 12c7191beed9f0f76640c8def751bbff10b14845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:41 +0000
Subject: [PATCH 003/157] fix: <<= and >>= on bit-fields asserted or shifted in
 the wrong type

---
 src/parse.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 8382046..4e212af 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -4092,7 +4092,13 @@ func void punt_compound_assignment(struct context *context, struct expr *lhs, st
     
     struct expr dup_expr = {.ir = dup, site, lhs->resolved_type, lhs->defined_type};
     
-    maybe_insert_arithmetic_conversion_casts(context, &dup_expr, rhs);
+    if(ast_kind == AST_left_shift_assignment || ast_kind == AST_right_shift_assignment){
+        // "the type of the result is that of the promoted left operand", the right hand side is the shift count (see AST_binary_left_shift).
+        maybe_insert_integer_promotion_cast(context, AST_cast_lhs, &dup_expr);
+        push_cast(context, AST_cast, &globals.typedef_u8, null, rhs);
+    }else{
+        maybe_insert_arithmetic_conversion_casts(context, &dup_expr, rhs);
+    }
     
     enum ir_type ir_type = ir_type_from_type(dup_expr.resolved_type);
     enum ir_kind op_ir_kind;
-- 
2.43.0


From 3f50a19ea1d1965d2b9a8d5f286a75682600bb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:03 +0000
Subject: [PATCH 004/157] fix: constant folded floating point comparisons
 always evaluated to 1

---
 src/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 4e212af..8209808 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -2932,7 +2932,7 @@ func void perform_float_operation(struct context *context, enum ast_kind binary_
         // "The result has type int".
         struct ir_integer_literal *lit = (struct ir_integer_literal *)lhs;
         lit->base.kind = IR_integer_literal;
-        lit->_u64 = 1;
+        lit->_u64 = compare_value;
         lit->type = &globals.typedef_s32;
         op_rhs->resolved_type = &globals.typedef_s32;
         op_rhs->defined_type = &globals.typedef_u8.kind;
-- 
2.43.0


From 87e846e876fb90c665a095bdaa7b4e8dbdef3aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:39 +0000
Subject: [PATCH 005/157] fix: floating point comparisons with NaN and truth
 value of -0.0

comiss/comisd set ZF and CF for unordered operands, hence <, <=, == and != were wrong for NaNs.
Floats in memory used as conditions were tested as integers, hence -0.0 was considered true.
---
 src/emit_x64.c | 83 +++++++++++++++++++++++++++++++++++++++++---------
 src/parse.c    | 26 +++++++++++++++-
 2 files changed, 93 insertions(+), 16 deletions(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index 3a92a0d..0564728 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -336,6 +336,7 @@ enum TWO_BYTE_OPCODES{ // these are of the form 0x0F opcode
     // @cleanup: where to use which?
     UNORDERED_COMPARE_XMM  = 0x2e,
     COMPARE_XMM  = 0x2f,
+    COMPARE_MASK_XMM = 0xc2,
     
     AND_XMM = 0x54,
     AND_NOT_XMM = 0x55,
@@ -2096,6 +2097,34 @@ struct emit_location *emit_store_atomic_integer(struct context *context, struct
 //_____________________________________________________________________________________________________________________
 // Conditions
 
+// Sets the flags such that `COMP_unequals` is true iff `lhs == rhs` or `lhs != rhs`, depending on `comp`.
+// 
+// @note: `comisd` reports "equal" if one of the operands is a NaN, hence we use `cmpsd` which produces a mask.
+//        Consumes both arguments.
+func void emit_float_equality__internal(struct context *context, struct emit_location *lhs, struct emit_location *rhs, enum comp_condition comp){
+    assert(lhs->state == EMIT_LOCATION_loaded && lhs->register_kind == REGISTER_KIND_xmm);
+    assert(rhs->state == EMIT_LOCATION_loaded && rhs->register_kind == REGISTER_KIND_xmm);
+    
+    // cmpss/cmpsd lhs, rhs, (eq | neq)
+    enum legacy_prefixes prefix = (lhs->size == 8) ? ASM_PREFIX_SSE_double : ASM_PREFIX_SSE_float;
+    emit_register_register(context, create_prefixes(prefix), two_byte_opcode(COMPARE_MASK_XMM), lhs, rhs);
+    emit((comp == COMP_equals) ? 0 : 4);
+    free_emit_location(context, rhs);
+    
+    emit_location_prevent_spilling(context, lhs);
+    enum register_encoding reg = allocate_register(context, REGISTER_KIND_gpr);
+    emit_location_allow_spilling(context, lhs);
+    struct emit_location *mask = emit_location_loaded(context, REGISTER_KIND_gpr, reg, 4);
+    
+    // movd mask, lhs
+    emit_register_op__internal(context, create_prefixes(ASM_PREFIX_66), two_byte_opcode(MOVQ_REGM_XMM), lhs->loaded_register, mask->loaded_register, 4);
+    free_emit_location(context, lhs);
+    
+    // test mask, mask
+    emit_register_register(context, no_prefix(), one_byte_opcode(TEST_REGM_REG), mask, mask);
+    free_emit_location(context, mask);
+}
+
 func struct emit_location *emit_compare_to_zero(struct context *context, struct emit_location *loaded){
     assert(loaded->state == EMIT_LOCATION_loaded);
     
@@ -2106,14 +2135,14 @@ func struct emit_location *emit_compare_to_zero(struct context *context, struct
         emit_register_register(context, no_prefix(), one_byte_opcode(inst), loaded, loaded);
         free_emit_location(context, loaded);
     }else{
+        emit_location_prevent_spilling(context, loaded);
         enum register_encoding reg = allocate_register(context, REGISTER_KIND_xmm);
+        emit_location_allow_spilling(context, loaded);
+        
         struct emit_location *zero = emit_location_loaded(context, REGISTER_KIND_xmm, reg, loaded->size);
         emit_register_register(context, no_prefix(), two_byte_opcode(XOR_XMM), zero, zero);
         
-        enum legacy_prefixes prefix = loaded->size == 8 ? ASM_PREFIX_NON_PACKED_OP_double : ASM_PREFIX_NON_PACKED_OP_float;
-        emit_register_register(context, create_prefixes(prefix), two_byte_opcode(COMPARE_XMM), loaded, zero);
-        free_emit_location(context, loaded);
-        free_emit_location(context, zero);
+        emit_float_equality__internal(context, loaded, zero, COMP_unequals);
     }
     
     return emit_location_conditional(context, COMP_not_zero);
@@ -3875,24 +3904,47 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 
                 struct emit_location *result;
                 if(ir_type == IR_TYPE_f32 || ir_type == IR_TYPE_f64){
-                    lhs = emit_load_float(context, lhs);
+                    // 
+                    // The `comiss` and `comisd` instructions set the carry-, zero- and parity flag if one of the operands is a NaN.
+                    // Hence, "above" and "above or equals" are false for NaNs, but "below" and "below or equals" are true.
+                    // Swap the operands for '<' and '<='.
+                    // 
+                    if(comp == COMP_smaller || comp == COMP_smaller_equals){
+                        struct emit_location *temp = lhs; lhs = rhs; rhs = temp;
+                        comp = (comp == COMP_smaller) ? COMP_bigger : COMP_bigger_equals;
+                    }
                     
-                    struct prefixes prefix = create_prefixes((ir_type == IR_TYPE_f32) ? ASM_PREFIX_NON_PACKED_OP_float : ASM_PREFIX_NON_PACKED_OP_double);
+                    emit_location_prevent_spilling(context, rhs);
+                    lhs = emit_load_float(context, lhs);
                     
-                    if(rhs->state == EMIT_LOCATION_loaded){
-                        emit_register_register(context, prefix, two_byte_opcode(COMPARE_XMM), lhs, rhs);
+                    if(comp == COMP_equals || comp == COMP_unequals){
+                        emit_location_allow_spilling(context, rhs);
+                        emit_location_prevent_spilling(context, lhs);
+                        rhs = emit_load_float(context, rhs);
+                        emit_location_allow_spilling(context, lhs);
+                        
+                        emit_float_equality__internal(context, lhs, rhs, comp);
+                        result = null;
+                        comp = COMP_unequals; // The mask is not zero.
                     }else{
-                        assert(rhs->state == EMIT_LOCATION_register_relative);
-                        emit_register_relative_register(context, prefix, two_byte_opcode(COMPARE_XMM), lhs->loaded_register, rhs);
+                        struct prefixes prefix = create_prefixes((ir_type == IR_TYPE_f32) ? ASM_PREFIX_NON_PACKED_OP_float : ASM_PREFIX_NON_PACKED_OP_double);
+                        
+                        if(rhs->state == EMIT_LOCATION_loaded){
+                            emit_register_register(context, prefix, two_byte_opcode(COMPARE_XMM), lhs, rhs);
+                        }else{
+                            assert(rhs->state == EMIT_LOCATION_register_relative);
+                            emit_register_relative_register(context, prefix, two_byte_opcode(COMPARE_XMM), lhs->loaded_register, rhs);
+                        }
+                        emit_location_allow_spilling(context, rhs);
+                        free_emit_location(context, rhs);
+                        
+                        result = lhs;
                     }
-                    free_emit_location(context, rhs);
-                    
-                    result = lhs;
                 }else{
                     int size = ir_type_size[ir_type];
                     result = emit_binary_op__internal(context, no_prefix(), lhs, rhs, size, 0, REG_OPCODE_CMP, CMP_REG8_REGM8, CMP_REG_REGM);
                 }
-                free_emit_location(context, result); // we only care about the flags
+                if(result) free_emit_location(context, result); // we only care about the flags
                 
                 struct emit_location *conditional = emit_location_conditional(context, comp);
                 
@@ -4174,7 +4226,8 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 
                 struct emit_location *loc = emit_location_stack[emit_location_stack_at - 1];
                 if(loc->state != EMIT_LOCATION_conditional){
-                    if(loc->state != EMIT_LOCATION_loaded) loc = emit_load_gpr(context, loc); // @cleanup: float?
+                    b32 is_float = (ir_kind == IR_logical_not_f32 || ir_kind == IR_logical_not_f64);
+                    if(loc->state != EMIT_LOCATION_loaded) loc = is_float ? emit_load_float(context, loc) : emit_load_gpr(context, loc);
                     loc = emit_compare_to_zero(context, loc);
                 }
                 
diff --git a/src/parse.c b/src/parse.c
index 8209808..10e0df6 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -92,6 +92,17 @@ static struct ir_jump_node *push_jump(struct context *context, enum ir_kind ir_k
     return ir;
 }
 
+// Insert a comparison to zero, if the value about to be used as a condition is a floating point value.
+// Otherwise, the back-end could not tell if a value in memory is an integer or a float and -0.0 would be considered true.
+static void maybe_insert_float_to_condition_comparison(struct context *context, struct ast_type *type){
+    if(type->kind == AST_float_type){
+        struct ir_float_literal *zero = push_struct(&context->ir_arena, struct ir_float_literal);
+        zero->base.kind = IR_float_literal;
+        zero->type = type;
+        push_ir(context, (type == &globals.typedef_f32) ? IR_unequals_f32 : IR_unequals_f64);
+    }
+}
+
 // Sometimes when we are constant propagating, we have to un-emit a literal.
 #define pop_from_ir_arena(context, ir) pop_from_ir_arena_(context, (u8 *)(ir), sizeof(*ir))
 func void pop_from_ir_arena_(struct context *context, u8 *ir_memory, smm size){
@@ -483,7 +494,11 @@ func void push_cast(struct context *context, enum ast_kind lhs_or_rhs, struct as
         if(ir_cast_to == IR_TYPE_bool){
             enum ir_kind ir_cast = IR_cast_to_bool;
             
-            if(lhs_or_rhs == AST_cast_lhs) ir_cast += 1;
+            if(lhs_or_rhs == AST_cast_lhs){
+                ir_cast += 1;
+            }else{
+                maybe_insert_float_to_condition_comparison(context, cast_what->resolved_type);
+            }
             cast_what->ir = push_ir(context, ir_cast);
         }else{
             static enum ir_kind ir_kind_for_cast[IR_TYPE_padding1][IR_TYPE_padding1] = {
@@ -6616,6 +6631,7 @@ case NUMBER_KIND_##type:{ \
                     // we should have special cases, that do not load the condition.
                     // 
                     
+                    maybe_insert_float_to_condition_comparison(context, op_rhs->resolved_type);
                     struct ir_jump_node *rhs_jump = push_jump(context, IR_jump_if_false);
                     rhs_jump->label_number = conditional_jump->label_number;
                     
@@ -6722,6 +6738,7 @@ case NUMBER_KIND_##type:{ \
                     // we should have special cases, that do not load the condition.
                     // 
                     
+                    maybe_insert_float_to_condition_comparison(context, operand.resolved_type);
                     struct ir_jump_node *rhs_jump = push_jump(context, IR_jump_if_true);
                     rhs_jump->label_number = conditional_jump->label_number;
                     
@@ -7313,6 +7330,7 @@ case NUMBER_KIND_##type:{ \
                 return operand;
             }
             
+            maybe_insert_float_to_condition_comparison(context, operand.resolved_type);
             struct ir_jump_node *conditional_jump = push_jump(context, IR_jump_if_false);
             conditional_jump->label_number = context->jump_label_index++;
             
@@ -7331,6 +7349,7 @@ case NUMBER_KIND_##type:{ \
                 return operand;
             }
             
+            maybe_insert_float_to_condition_comparison(context, operand.resolved_type);
             struct ir_jump_node *conditional_jump = push_jump(context, IR_jump_if_true);
             conditional_jump->label_number = context->jump_label_index++;
             
@@ -7400,6 +7419,7 @@ case NUMBER_KIND_##type:{ \
                 // Non-constant conditional. We have to insert jumps and such.
                 // 
                 
+                maybe_insert_float_to_condition_comparison(context, operand.resolved_type);
                 struct ir_jump_node *conditional_jump = push_jump(context, IR_jump_if_false);
                 conditional_jump->label_number = context->jump_label_index++;
                 
@@ -9077,6 +9097,7 @@ func void parse_statement(struct context *context){
             int statement_returns_a_value = context->current_statement_returns_a_value;
             
             // :ir_refactor - new
+            maybe_insert_float_to_condition_comparison(context, condition.resolved_type);
             struct ir_jump_node *condition_jump = push_jump(context, IR_jump_if_false);
             condition_jump->label_number = if_false_label;
             
@@ -9180,6 +9201,7 @@ func void parse_statement(struct context *context){
                 }
                 
                 // :ir_refactor - new
+                maybe_insert_float_to_condition_comparison(context, condition.resolved_type);
                 struct ir_jump_node *condition_jump = push_jump(context, IR_jump_if_false);
                 condition_jump->label_number = break_label_index;
                 
@@ -9259,6 +9281,7 @@ func void parse_statement(struct context *context){
             expect_token(context, TOKEN_closed_paren, "Expected ')' at the end of 'while'.");
             
             // :ir_refactor - new
+            maybe_insert_float_to_condition_comparison(context, condition.resolved_type);
             struct ir_jump_node *condition_jump = push_jump(context, IR_jump_if_false);
             condition_jump->label_number = break_label_index;
             
@@ -9331,6 +9354,7 @@ func void parse_statement(struct context *context){
             expect_token(context, TOKEN_closed_paren, "Expected ')' ending 'while'-condition.");
             
             // :ir_refactor - new
+            maybe_insert_float_to_condition_comparison(context, condition.resolved_type);
             struct ir_jump_node *condition_jump = push_jump(context, IR_jump_if_true);
             condition_jump->label_number = loop_label_index;
             
-- 
2.43.0


From a0349a8c695f3fff85b2d6010e420bf71a74c9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:30 +0000
Subject: [PATCH 006/157] fix: converting u64 to float could skip a register
 spill and corrupt another live value

---
 src/emit_x64.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index 0564728..2cc03d8 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -3179,6 +3179,9 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 loc = emit_load_gpr(context, loc);
                 emit_location_prevent_spilling(context, loc);
                 
+                // Allocate the temporary before the branch, otherwise the spill is only executed if MSB is set.
+                enum register_encoding saved_gpr = allocate_register(context, REGISTER_KIND_gpr);
+                
                 // test the value
                 emit_register_register(context, no_prefix(), one_byte_opcode(TEST_REGM_REG), loc, loc);
                 
@@ -3195,7 +3198,6 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 emit_end_jumps(context, msb_set_jump);
                 
                 // copy the value
-                enum register_encoding saved_gpr = allocate_register(context, REGISTER_KIND_gpr);
                 struct emit_location *saved = emit_load_into_specific_gpr(context, loc, saved_gpr);
                 
                 // shift the value to the right by 1.
-- 
2.43.0


From 8abe38fdbd23ce02f919ded08bb69ea200fcc1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:00 +0000
Subject: [PATCH 007/157] fix: floating point to u32/u64 conversions of values
 above the signed range

---
 src/emit_x64.c | 115 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 79 insertions(+), 36 deletions(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index 2cc03d8..379094e 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -2584,6 +2584,67 @@ struct emit_location *emit_float_cast(struct context *context, struct emit_locat
     return loaded;
 }
 
+struct emit_location *emit_float_cast_to_u64(struct context *context, struct emit_location *loc, enum legacy_prefixes prefix){
+    // 
+    // The instructions 'cvttsd2si' and 'cvttss2si' convert to a *signed* integer and yield 0x8000000000000000 if the value does not fit.
+    // 
+    //     cvttsd2si low, value
+    //     subsd     value, 9223372036854775808.0
+    //     cvttsd2si high, value
+    //     mov       mask, low
+    //     sar       mask, 63    ; All ones, if the value did not fit into an s64.
+    //     and       high, mask
+    //     or        low, high
+    // 
+    struct ir_emitted_float_literal *emitted = push_struct(context->arena, struct ir_emitted_float_literal);
+    emitted->base.kind = IR_emitted_float_literal;
+    smm size;
+    if(prefix == ASM_PREFIX_SSE_float){
+        size = 4;
+        emitted->literal._f32  = 9223372036854775808.0f;
+        emitted->literal.type = &globals.typedef_f32;
+    }else{
+        size = 8;
+        emitted->literal._f64  = 9223372036854775808.0;
+        emitted->literal.type = &globals.typedef_f64;
+    }
+    sll_push_back(context->emitted_float_literals, emitted);
+    context->emitted_float_literals.amount_of_float_literals += 1;
+    struct emit_location *literal = emit_location_rip_relative(context, &emitted->base, size);
+    
+    struct emit_location *value = emit_load_float(context, loc);
+    emit_location_prevent_spilling(context, value);
+    
+    struct emit_location *low = emit_location_loaded(context, REGISTER_KIND_gpr, allocate_register(context, REGISTER_KIND_gpr), 8);
+    emit_location_prevent_spilling(context, low);
+    emit_register_op__internal(context, create_prefixes(prefix), two_byte_opcode(0x2c), low->loaded_register, value->loaded_register, 8);
+    
+    emit_register_relative_register(context, create_prefixes(prefix), two_byte_opcode(SUB_XMM), value->loaded_register, literal);
+    free_emit_location(context, literal);
+    
+    struct emit_location *high = emit_location_loaded(context, REGISTER_KIND_gpr, allocate_register(context, REGISTER_KIND_gpr), 8);
+    emit_location_prevent_spilling(context, high);
+    emit_register_op__internal(context, create_prefixes(prefix), two_byte_opcode(0x2c), high->loaded_register, value->loaded_register, 8);
+    
+    struct emit_location *mask = emit_location_loaded(context, REGISTER_KIND_gpr, allocate_register(context, REGISTER_KIND_gpr), 8);
+    emit_register_register(context, no_prefix(), one_byte_opcode(MOVE_REG_REGM), mask, low);
+    emit_reg_extended_op(context, no_prefix(), one_byte_opcode(SHIFT_OR_ROTATE_REGM_IMMEDIATE8), REG_OPCODE_SHIFT_ARITHMETIC_RIGHT, mask);
+    emit(63);
+    
+    emit_register_register(context, no_prefix(), one_byte_opcode(AND_REG_REGM), high, mask);
+    emit_register_register(context, no_prefix(), one_byte_opcode(OR_REG_REGM), low, high);
+    
+    emit_location_allow_spilling(context, value);
+    emit_location_allow_spilling(context, low);
+    emit_location_allow_spilling(context, high);
+    
+    free_emit_location(context, mask);
+    free_emit_location(context, high);
+    free_emit_location(context, value);
+    
+    return low;
+}
+
 
 //_____________________________________________________________________________________________________________________
 // :emit_code_for_function__internal
@@ -2945,18 +3006,26 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
                 emit_location_stack[stack_index] = emit_float_cast(context, emit_location_stack[stack_index], ASM_PREFIX_SSE_float, 2, 4, 0x2c);
             }break;
-            case IR_cast_f32_to_s32: case IR_cast_f32_to_s32_lhs:
-            case IR_cast_f32_to_u32: case IR_cast_f32_to_u32_lhs:{
+            case IR_cast_f32_to_s32: case IR_cast_f32_to_s32_lhs:{
                 ir_arena_at += sizeof(struct ir);
                 smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
                 emit_location_stack[stack_index] = emit_float_cast(context, emit_location_stack[stack_index], ASM_PREFIX_SSE_float, 4, 4, 0x2c);
             }break;
-            case IR_cast_f32_to_s64: case IR_cast_f32_to_s64_lhs:
-            case IR_cast_f32_to_u64: case IR_cast_f32_to_u64_lhs:{
+            case IR_cast_f32_to_u32: case IR_cast_f32_to_u32_lhs:{
+                ir_arena_at += sizeof(struct ir);
+                smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
+                emit_location_stack[stack_index] = emit_float_cast(context, emit_location_stack[stack_index], ASM_PREFIX_SSE_float, 4, 8, 0x2c);
+            }break;
+            case IR_cast_f32_to_s64: case IR_cast_f32_to_s64_lhs:{
                 ir_arena_at += sizeof(struct ir);
                 smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
                 emit_location_stack[stack_index] = emit_float_cast(context, emit_location_stack[stack_index], ASM_PREFIX_SSE_float, 8, 8, 0x2c);
             }break;
+            case IR_cast_f32_to_u64: case IR_cast_f32_to_u64_lhs:{
+                ir_arena_at += sizeof(struct ir);
+                smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
+                emit_location_stack[stack_index] = emit_float_cast_to_u64(context, emit_location_stack[stack_index], ASM_PREFIX_SSE_float);
+            }break;
             
             case IR_cast_f64_to_s8: case IR_cast_f64_to_s8_lhs:
             case IR_cast_f64_to_u8: case IR_cast_f64_to_u8_lhs:{
@@ -2980,42 +3049,16 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
                 emit_location_stack[stack_index] = emit_float_cast(context, emit_location_stack[stack_index], ASM_PREFIX_SSE_double, 4, 8, 0x2c);
             }break;
-            case IR_cast_f64_to_s64: case IR_cast_f64_to_s64_lhs:
-            case IR_cast_f64_to_u64: case IR_cast_f64_to_u64_lhs:{
+            case IR_cast_f64_to_s64: case IR_cast_f64_to_s64_lhs:{
                 ir_arena_at += sizeof(struct ir);
                 smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
-                
-                // @cleanup:
-                // 
-                // We want to cast some float-type to some integer-type.
-                // 
-                // We use the instructions 'cvttsd2si' or 'cvttss2si' based on the 
-                // the floating point type. These instructions convert to *signed* integer type.
-                // Hence, we have to do something special here for unsigned types.
-                // 
-                // If the destination is a 'u8' or 'u16',  we can simply use the 32-bit version and then truncate.
-                // If the destination is a 'u32', we can simply use the 64-bit version and then truncate.
-                // If the destination is a 'u64', we have to check first if the value in the source is large.
-                // 
-                // gcc and msvc compare emit something like this:
-                //     movsd  xmm0, doubled              ; Load the initial value into xmm0.
-                //     comisd xmm0, qword ptr[rip + big] ; Compare against a big number 9.22337e+19 (0x8000000000000000).
-                //     jb simple_conversion              ; We are less then the first value which overflows a s64.
-                //     
-                //     sub xmm0, qword ptr[rip + big]    ; We exceed the big value, subtract it.
-                //     cvttsd2si rax, xmm0               ; Then convert, now the result should be (unless overflow in the correct range).
-                //     mov rcx, 0x8000000000000000       ; Then finally, add the 0x8000000000000000 back into rax.
-                //     add rax, rcx
-                //     jmp end
-                //     
-                // simple_conversion:
-                //     cvttsd2si rax, xmm0               ; We know it is in range, simply convert.
-                //     
-                // end:
-                //     
-                
                 emit_location_stack[stack_index] = emit_float_cast(context, emit_location_stack[stack_index], ASM_PREFIX_SSE_double, 8, 8, 0x2c);
             }break;
+            case IR_cast_f64_to_u64: case IR_cast_f64_to_u64_lhs:{
+                ir_arena_at += sizeof(struct ir);
+                smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
+                emit_location_stack[stack_index] = emit_float_cast_to_u64(context, emit_location_stack[stack_index], ASM_PREFIX_SSE_double);
+            }break;
             
             case IR_cast_s8_to_f32: case IR_cast_s8_to_f32_lhs:{
                 ir_arena_at += sizeof(struct ir);
-- 
2.43.0


From c044a3a7016f0ef9db581433da2b6e8b279c8873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 008/157] fix: compound division and modulo with operands of
 different signedness or small signed types

---
 src/parse.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index 10e0df6..387bb6c 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -4093,6 +4093,25 @@ static void parse_call_to_printlike_function_arguments(struct context *context,
 }
 
 // :compound_assignments
+// 
+// Compound divisions have to be performed in the common type of both operands.
+// The in-place version operates in the type of the left hand side, check if that would yield a different result, i.e. when 
+//     - one is performed signed and the other one unsigned, or
+//     - the left hand side is a small signed type, as in this case `-128 / -1` overflows, but `(int)-128 / -1` does not.
+// 
+func b32 compound_division_has_to_be_punted(struct expr *lhs, struct expr *rhs, b32 rhs_is_small_literal){
+    struct ast_type *lhs_type = lhs->resolved_type;
+    struct ast_type *rhs_type = rhs->resolved_type;
+    if(lhs_type->kind != AST_integer_type || rhs_type->kind != AST_integer_type) return false;
+    
+    b32 lhs_is_signed = type_is_signed(lhs_type);
+    b32 rhs_is_signed = type_is_signed(rhs_type);
+    
+    if(rhs_type->size >= 4 && !rhs_is_signed && lhs_is_signed && lhs_type->size <= rhs_type->size) return true;
+    if(lhs_type->size >= 4 || rhs_is_small_literal) return false;
+    return lhs_is_signed || rhs_is_signed;
+}
+
 func void punt_compound_assignment(struct context *context, struct expr *lhs, struct expr *rhs, struct token *site, enum ast_kind ast_kind){
     // 
     // IR_duplicate_lhs:
@@ -7101,6 +7120,7 @@ case NUMBER_KIND_##type:{ \
                 //     char a = 1; int b = 0x100; a %= b; 
                 // in which case 'b' cant be truncated to char, or it will crash.
                 b32 punt = (lhs->resolved_type->size < rhs->resolved_type->size);
+                b32 rhs_is_small_literal = false;
                 
                 if(rhs->ir->kind == IR_integer_literal){
                     u64 value = integer_literal_as_u64(rhs);
@@ -7113,9 +7133,12 @@ case NUMBER_KIND_##type:{ \
                         // @cleanup: you could see how we could report an error here instead of punting in some cases
                         //           but this hits the common case of % by some small integer (like 10).
                         punt = false;
+                        rhs_is_small_literal = true;
                     }
                 }
                 
+                if(compound_division_has_to_be_punted(lhs, rhs, rhs_is_small_literal)) punt = true;
+                
                 if(lhs->resolved_type == &globals.typedef_Bool || (lhs->resolved_type->kind == AST_bitfield_type)) punt = 1;
                 
                 if(punt){
@@ -7187,6 +7210,7 @@ case NUMBER_KIND_##type:{ \
                 struct ast_type *rhs_type = rhs->resolved_type;
                 
                 int punt = false;
+                b32 rhs_is_small_literal = false;
                 if(lhs_type->kind == AST_integer_type && rhs_type->kind == AST_float_type) punt = true;
                 
                 //
@@ -7214,9 +7238,12 @@ case NUMBER_KIND_##type:{ \
                         // @cleanup: you could see how we could report an error here instead of punting in some cases
                         //           but this hits the common case of % by some small integer (like 10).
                         punt = false;
+                        rhs_is_small_literal = true;
                     }
                 }
                 
+                if(ast_kind == AST_divide_assignment && compound_division_has_to_be_punted(lhs, rhs, rhs_is_small_literal)) punt = true;
+                
                 if(lhs->resolved_type == &globals.typedef_Bool || lhs->resolved_type->kind == AST_bitfield_type) punt = 1;
                 
                 if(punt){
-- 
2.43.0


From 617dde134bb2ba6bc700708a319933db0af25ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:29 +0000
Subject: [PATCH 009/157] fix: 64 bit wide bit-fields, negative bit-field
 initializers and results of floating point assignments used as operands

The mask of a bit-field of width 64 overflowed, static initializers did not truncate the value to the bit-field
and a float loaded into a general purpose register by an assignment was used as if it was in an xmm register.
---
 src/emit_x64.c | 26 ++++++++++++++++++++++----
 src/main.c     |  6 +++---
 src/parse.c    |  6 +++---
 3 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index 379094e..75ae4d7 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -1407,7 +1407,20 @@ func struct emit_location *emit_load_float_into_specific_register(struct context
     return ret;
 }
 
+// @note: Floating point values might end up in a general purpose register, e.g. as the result of an assignment.
+func struct emit_location *emit_move_loaded_float_to_xmm(struct context *context, struct emit_location *loc){
+    if(loc->state != EMIT_LOCATION_loaded || loc->register_kind == REGISTER_KIND_xmm) return loc;
+    
+    struct emit_location *ret = emit_location_loaded(context, REGISTER_KIND_xmm, allocate_register(context, REGISTER_KIND_xmm), loc->size);
+    
+    // movd / movq ret, loc
+    emit_register_op__internal(context, create_prefixes(ASM_PREFIX_66), two_byte_opcode(0x6E), ret->loaded_register, loc->loaded_register, loc->size);
+    free_emit_location(context, loc);
+    return ret;
+}
+
 func struct emit_location *emit_load_float(struct context *context, struct emit_location *loc){
+    loc = emit_move_loaded_float_to_xmm(context, loc);
     if(loc->state == EMIT_LOCATION_loaded) return loc;
     return emit_load_float_into_specific_register(context, loc, allocate_register(context, REGISTER_KIND_xmm));
 }
@@ -1859,6 +1872,7 @@ func struct emit_location *emit_binary_op_xmm(struct context *context, struct em
     assert(lhs->size == rhs->size);
     
     lhs = emit_load_float(context, lhs);
+    rhs = emit_move_loaded_float_to_xmm(context, rhs);
     
     struct prefixes sse_prefix = get_sse_prefix_for_scalar(lhs->size);
     
@@ -2040,8 +2054,10 @@ struct emit_location *emit_store_bitfield(struct context *context, struct ast_bi
     struct emit_location *rhs_loaded = emit_load_gpr(context, rhs);
     emit_location_prevent_spilling(context, rhs_loaded);
     
+    u64 width_mask = 0xffffffffffffffff >> (64 - bitfield->width); // @note: The width can be 64.
+    
     // Truncate the right hand side.
-    struct emit_location *mask = emit_location_immediate(context, (1ull << bitfield->width) - 1, lhs->size);
+    struct emit_location *mask = emit_location_immediate(context, width_mask, lhs->size);
     struct emit_location *mask_loaded = emit_load_gpr(context, mask);
     emit_register_register(context, no_prefix(), one_byte_opcode(AND_REG_REGM), rhs_loaded, mask_loaded);
     free_emit_location(context, mask_loaded);
@@ -2056,7 +2072,7 @@ struct emit_location *emit_store_bitfield(struct context *context, struct ast_bi
     struct emit_location *lhs_loaded = emit_load_gpr(context, lhs);
     emit_location_prevent_spilling(context, lhs_loaded);
     
-    mask = emit_location_immediate(context, ~(((1ull << bitfield->width) - 1) << bitfield->bit_index), lhs->size);
+    mask = emit_location_immediate(context, ~(width_mask << bitfield->bit_index), lhs->size);
     mask_loaded = emit_load_gpr(context, mask);
     emit_register_register(context, no_prefix(), one_byte_opcode(AND_REG_REGM), lhs_loaded, mask_loaded);
     free_emit_location(context, mask_loaded);
@@ -2571,6 +2587,7 @@ struct emit_location *emit_integer_cast(struct context *context, struct emit_loc
 }
 
 struct emit_location *emit_float_cast(struct context *context, struct emit_location *loc, enum legacy_prefixes prefix, int size, int big_size, u8 opcode){
+    loc = emit_move_loaded_float_to_xmm(context, loc);
     struct emit_location *loaded = emit_location_loaded(context, REGISTER_KIND_gpr, allocate_register(context, REGISTER_KIND_gpr), size);
     
     if(loc->state == EMIT_LOCATION_register_relative){
@@ -2884,7 +2901,7 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
             case IR_cast_f32_to_f64: case IR_cast_f32_to_f64_lhs:{
                 ir_arena_at += sizeof(struct ir);
                 smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
-                struct emit_location *loc = emit_location_stack[stack_index];
+                struct emit_location *loc = emit_move_loaded_float_to_xmm(context, emit_location_stack[stack_index]);
                 loc->size = 8;
                 
                 // cvtss2sd - convert_scalar_single_to_scalar_double
@@ -2905,7 +2922,7 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
             case IR_cast_f64_to_f32: case IR_cast_f64_to_f32_lhs:{
                 ir_arena_at += sizeof(struct ir);
                 smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
-                struct emit_location *loc = emit_location_stack[stack_index];
+                struct emit_location *loc = emit_move_loaded_float_to_xmm(context, emit_location_stack[stack_index]);
                 loc->size = 4;
                 
                 // cvtss2sd - convert_scalar_single_to_scalar_double
@@ -3959,6 +3976,7 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                         comp = (comp == COMP_smaller) ? COMP_bigger : COMP_bigger_equals;
                     }
                     
+                    rhs = emit_move_loaded_float_to_xmm(context, rhs);
                     emit_location_prevent_spilling(context, rhs);
                     lhs = emit_load_float(context, lhs);
                     
diff --git a/src/main.c b/src/main.c
index a4b32f0..b1e3836 100644
--- a/src/main.c
+++ b/src/main.c
@@ -2491,10 +2491,10 @@ func void evaluate_static_initializer__internal(struct context *context, struct
                                 memcpy(&old_value, data + offset, lhs_type->size);
                                 
                                 struct ast_bitfield_type *bitfield = cast(struct ast_bitfield_type *)lhs_type;
-                                value <<= bitfield->bit_index;
                                 
-                                u64 mask = ~(((1ull << bitfield->width) - 1) << bitfield->bit_index);
-                                u64 new_value = (mask & old_value) | value;
+                                // @note: The value might be negative or not fit the bitfield.
+                                u64 width_mask = 0xffffffffffffffff >> (64 - bitfield->width);
+                                u64 new_value = (old_value & ~(width_mask << bitfield->bit_index)) | ((value & width_mask) << bitfield->bit_index);
                                 memcpy(data + offset, &new_value, lhs_type->size);
                             }else{
                                 assert(lhs_type->kind == AST_integer_type || lhs_type->kind == AST_pointer_type || lhs_type->kind == AST_atomic_integer_type);
diff --git a/src/parse.c b/src/parse.c
index 387bb6c..a5feb6b 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -419,8 +419,8 @@ func void push_cast(struct context *context, enum ast_kind lhs_or_rhs, struct as
             struct ast_bitfield_type *bitfield = (struct ast_bitfield_type *)cast_to;
             
             if(type_is_signed(bitfield->base_type)){
-                smm min_value = -(1ll << (bitfield->width - 1));
-                smm max_value =  (1ll << (bitfield->width - 1)) - 1;
+                smm max_value = 0x7fffffffffffffff >> (64 - bitfield->width);
+                smm min_value = -max_value - 1;
                 
                 if(type_is_signed(cast_what->resolved_type)){
                     s64 value = integer_literal_as_u64(cast_what);
@@ -434,7 +434,7 @@ func void push_cast(struct context *context, enum ast_kind lhs_or_rhs, struct as
                     }
                 }
             }else{
-                u64 max_value = (1ull << bitfield->width) - 1;
+                u64 max_value = 0xffffffffffffffff >> (64 - bitfield->width);
                 
                 if(type_is_signed(cast_what->resolved_type)){
                     s64 value = integer_literal_as_u64(cast_what);
-- 
2.43.0


From fe2e2a43056d7280d41f415e0c4521e96c1ccdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:02 +0000
Subject: [PATCH 010/157] fix: arithmetic on pointer literals, signed pointer
 differences and index[pointer]

---
 src/main.c  |  8 ++++++++
 src/parse.c | 17 +++++++++++------
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/main.c b/src/main.c
index b1e3836..f0f0d04 100644
--- a/src/main.c
+++ b/src/main.c
@@ -2381,6 +2381,14 @@ func void evaluate_static_initializer__internal(struct context *context, struct
             // Binary expressions:
             // 
             
+            case IR_swap_lhs_rhs:{
+                ir_offset += sizeof(struct ir);
+                
+                struct evaluate_static_initializer_ir_stack_node lhs = ir_stack[ir_stack_at-2];
+                ir_stack[ir_stack_at-2] = ir_stack[ir_stack_at-1];
+                ir_stack[ir_stack_at-1] = lhs;
+            }break;
+            
             case IR_array_subscript:{
                 struct ir_subscript *subscript = (struct ir_subscript *)ir_node;
                 ir_offset += sizeof(struct ir_subscript);
diff --git a/src/parse.c b/src/parse.c
index a5feb6b..c489557 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -1780,9 +1780,9 @@ func void handle_pointer_arithmetic(struct context *context, enum ir_kind ir_kin
         
         struct ir_pointer_literal *pointer_lit = (struct ir_pointer_literal *)pointer->ir;
         if(ir_kind == IR_add_u64){
-            pointer_lit->pointer += integer_literal_as_s64(integer);
+            pointer_lit->pointer += integer_literal_as_s64(integer) * deref_type->size;
         }else{
-            pointer_lit->pointer -= integer_literal_as_s64(integer);
+            pointer_lit->pointer -= integer_literal_as_s64(integer) * deref_type->size;
         }
         
         if(integer->ir < pointer->ir){
@@ -1830,7 +1830,7 @@ func void handle_pointer_arithmetic(struct context *context, enum ir_kind ir_kin
     operand->token = token;
 }
 
-func void push_nodes_for_subscript(struct context *context, struct expr *lhs, struct expr *index){
+func void push_nodes_for_subscript(struct context *context, struct expr *lhs, struct expr *index, b32 index_was_swapped){
     struct ast_type *lhs_type = lhs->resolved_type;
     assert(lhs_type->kind == AST_array_type || lhs_type->kind == AST_pointer_type);
     
@@ -1849,7 +1849,7 @@ func void push_nodes_for_subscript(struct context *context, struct expr *lhs, st
         
         struct ast_array_type *array = (struct ast_array_type *)lhs_type;
         
-        if(lhs->ir->kind == IR_pointer_literal_deref && index->ir->kind == IR_integer_literal){
+        if(lhs->ir->kind == IR_pointer_literal_deref && index->ir->kind == IR_integer_literal && !index_was_swapped){
             
             // Transform
             //    (*((int (*) [])0))[3]
@@ -5199,6 +5199,7 @@ case NUMBER_KIND_##type:{ \
             case TOKEN_open_index:{
                 
                 struct expr index = parse_expression(context, false);
+                b32 index_was_swapped = false;
                 expect_token(context, TOKEN_closed_index, "Expected ']' at the end of array subscript.");
                 if(context->should_exit_statement) return index;
                 
@@ -5212,6 +5213,10 @@ case NUMBER_KIND_##type:{ \
                     struct expr temp = operand;
                     operand = index;
                     index = temp;
+                    
+                    // The back-end expects the pointer first.
+                    push_ir(context, IR_swap_lhs_rhs);
+                    index_was_swapped = true;
                 }
                 
                 if(!check_unary_for_basic_types(context, index.resolved_type, CHECK_integer, test)) return index;
@@ -5245,7 +5250,7 @@ case NUMBER_KIND_##type:{ \
                 // @cleanup: warning or error if the lhs is an array and the index is statically out of bounds?
                 //
                 
-                push_nodes_for_subscript(context, &operand, &index);
+                push_nodes_for_subscript(context, &operand, &index, index_was_swapped);
                 
                 context->in_lhs_expression = true;
             }break;
@@ -6160,7 +6165,7 @@ case NUMBER_KIND_##type:{ \
                         struct ast_pointer_type *pointer = cast(struct ast_pointer_type *)op_lhs->resolved_type;
                         if(pointer->pointer_to->size != 1){ // @cleanup: 0?
                             ast_push_s64_literal(context, pointer->pointer_to->size, null);
-                            operand.ir = push_ir(context, IR_divide_u64);
+                            operand.ir = push_ir(context, IR_divide_s64); // @note: The difference might be negative.
                         }
                         
                         operand.resolved_type = &globals.typedef_s64;
-- 
2.43.0


From dd3a5d887e00ebd72d3b03a4cdff5dbdb59b5b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:58 +0000
Subject: [PATCH 011/157] fix: casting an immediate assignment result to a
 narrower integer and back skipped the cast

---
 src/emit_x64.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index 75ae4d7..b5119d4 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -2577,8 +2577,12 @@ struct emit_location *emit_integer_cast(struct context *context, struct emit_loc
         free_emit_location(context, loc);
         loc = emit_location_loaded(context, REGISTER_KIND_gpr, reg, source_size);
     }else if(loc->state == EMIT_LOCATION_immediate){
-        // This can happen for things like: (__int64)(1ull, 0)
+        // This can happen for things like: (__int64)(1ull, 0) or (char)(short_variable = 0x1234).
+        // The immediate might be wider than the type we are casting from, so we have to perform the cast.
+        loc->size = 4;
         loc = emit_load_gpr(context, loc);
+        loc->size = source_size;
+        emit_register_register(context, no_prefix(), opcode, loc, loc);
     }else{
         emit_register_register(context, no_prefix(), opcode, loc, loc);
     }
-- 
2.43.0


From 1303e1c4a2a24aaaf4c45c71d383930c8a11ec30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:58 +0000
Subject: [PATCH 012/157] fix: a float argument held in a gpr of the same
 number was not moved to its xmm argument register

---
 src/emit_x64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index b5119d4..276d9ce 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -3600,7 +3600,7 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                     
                     enum register_encoding expected_register = argument_registers[expected_register_kind][returns_big_struct + argument_index];
                     
-                    if(argument->state == EMIT_LOCATION_loaded && argument->loaded_register == expected_register){
+                    if(argument->state == EMIT_LOCATION_loaded && argument->register_kind == expected_register_kind && argument->loaded_register == expected_register){
                         // The argument is already in the correct slot.
                         emit_location_prevent_spilling(context, argument);
                         argument_locations[argument_index] = argument;
-- 
2.43.0


From efcdd97234bff02d0baf78cb09fa15c20839de8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:08 +0000
Subject: [PATCH 013/157] fix: #if: type of shifts, '!' and '?:', unevaluated
 division by zero and s64 division overflow; fold '!', '&&' and '||' of
 floating constants

---
 src/parse.c      | 21 +++++++++++++++++++++
 src/preprocess.c | 19 +++++++++++++++----
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index c489557..5125b53 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -258,6 +258,17 @@ func f64 float_literal_as_f64(struct ir_float_literal *float_literal){
     return (float_literal->type == &globals.typedef_f64) ? float_literal->_f64 : (f64)float_literal->_f32;
 }
 
+// Constant propagate 'float_literal != 0.0', used for the operands of '!', '&&' and '||'.
+func void convert_float_literal_to_truth_value(struct context *context, struct expr *operand){
+    if(operand->ir->kind != IR_float_literal) return;
+    
+    struct ir_float_literal *float_literal = (struct ir_float_literal *)operand->ir;
+    int truth_value = (float_literal_as_f64(float_literal) != 0.0);
+    
+    pop_from_ir_arena(context, float_literal);
+    *operand = ast_push_s32_literal(context, truth_value, operand->token);
+}
+
 static struct ast_type *defined_type_to_type(enum ast_kind *defined_type){
     if(*defined_type == IR_typedef){
         return ((struct ast_declaration *)defined_type)->type;
@@ -5832,6 +5843,8 @@ case NUMBER_KIND_##type:{ \
             
             case AST_unary_logical_not:{
                 
+                convert_float_literal_to_truth_value(context, &operand);
+                
                 if(operand.ir->kind == IR_integer_literal){
                     struct ir_integer_literal *lit = cast(struct ir_integer_literal *)operand.ir;
                     lit->_u64 = !integer_literal_as_u64(&operand);
@@ -6612,6 +6625,8 @@ case NUMBER_KIND_##type:{ \
                     return operand;
                 }
                 
+                convert_float_literal_to_truth_value(context, &operand);
+                
                 // 
                 // Code for &&
                 //  
@@ -6727,6 +6742,8 @@ case NUMBER_KIND_##type:{ \
                     return operand;
                 }
                 
+                convert_float_literal_to_truth_value(context, &operand);
+                
                 struct expr *op_lhs_expr = &stack_entry->operand;
                 struct ir *op_lhs = stack_entry->operand.ir;
                 
@@ -7362,6 +7379,8 @@ case NUMBER_KIND_##type:{ \
                 return operand;
             }
             
+            convert_float_literal_to_truth_value(context, &operand);
+            
             maybe_insert_float_to_condition_comparison(context, operand.resolved_type);
             struct ir_jump_node *conditional_jump = push_jump(context, IR_jump_if_false);
             conditional_jump->label_number = context->jump_label_index++;
@@ -7381,6 +7400,8 @@ case NUMBER_KIND_##type:{ \
                 return operand;
             }
             
+            convert_float_literal_to_truth_value(context, &operand);
+            
             maybe_insert_float_to_condition_comparison(context, operand.resolved_type);
             struct ir_jump_node *conditional_jump = push_jump(context, IR_jump_if_true);
             conditional_jump->label_number = context->jump_label_index++;
diff --git a/src/preprocess.c b/src/preprocess.c
index 409e7bb..8022a54 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -2998,7 +2998,7 @@ func s64 static_if_evaluate(struct context *context){
                 case NUMBER_KIND_int:
                 case NUMBER_KIND_long:
                 case NUMBER_KIND_long_long:{
-                    if(value < max_s64) break;
+                    if(value <= max_s64) break;
                     report_warning(context, WARNING_integer_literal_too_large_to_be_signed, test, "Integer literal exceeds the maximum value representable as a signed integer and is interpreted as unsigned.");
                     is_unsigned = 1;
                 }break;
@@ -3188,16 +3188,16 @@ func s64 static_if_evaluate(struct context *context){
         static_if_stack_pop(context);
         
         switch(current->operation){
-            case STATIC_IF_EVALUATE_logical_not: value = !value; break;
+            case STATIC_IF_EVALUATE_logical_not: value = !value; is_unsigned = 0; break;
             case STATIC_IF_EVALUATE_bitwise_not: value = ~value; break;
             case STATIC_IF_EVALUATE_unary_minus: value = -(s64)value; break; // @cleanup: warning?
             
             case STATIC_IF_EVALUATE_left_shift:{
-                is_unsigned |= current->is_unsigned;
+                is_unsigned = current->is_unsigned; // @note: The type of a shift is the type of the left operand.
                 value = is_unsigned ? ((u64)current->value << (u64)value) : ((s64)current->value << (s64)value);
             }break;
             case STATIC_IF_EVALUATE_right_shift:{
-                is_unsigned |= current->is_unsigned;
+                is_unsigned = current->is_unsigned; // @note: The type of a shift is the type of the left operand.
                 value = is_unsigned ? ((u64)current->value >> (u64)value) : ((s64)current->value >> (s64)value);
             }break;
             
@@ -3213,18 +3213,28 @@ func s64 static_if_evaluate(struct context *context){
             case STATIC_IF_EVALUATE_div:{
                 is_unsigned |= current->is_unsigned;
                 if(value == 0){
+                    if(context->static_if_evaluate_should_skip_undefined_identifier) break; // This operand of '&&' or '||' is not evaluated.
                     report_error(context, get_current_token_for_error_report(context), "Divide by zero."); // @cleanup: More context if identifier was undefined.
                     return 0;
                 }
+                if(!is_unsigned && (s64)value == -1){
+                    value = -current->value; // @note: The smallest s64 divided by -1 would trap.
+                    break;
+                }
                 value = is_unsigned ? ((u64)current->value / (u64)value) : ((s64)current->value / (s64)value);
             }break;
             
             case STATIC_IF_EVALUATE_mod:{
                 is_unsigned |= current->is_unsigned;
                 if(value == 0){
+                    if(context->static_if_evaluate_should_skip_undefined_identifier) break; // This operand of '&&' or '||' is not evaluated.
                     report_error(context, get_current_token_for_error_report(context), "Mod with zero."); // @cleanup: More context if identifier was undefined.
                     return 0;
                 }
+                if(!is_unsigned && (s64)value == -1){
+                    value = 0; // @note: The smallest s64 divided by -1 would trap.
+                    break;
+                }
                 value = is_unsigned ? ((u64)current->value % (u64)value) : ((s64)current->value % (s64)value);
             }break;
             
@@ -3298,6 +3308,7 @@ func s64 static_if_evaluate(struct context *context){
                 
                 assert(if_true->operation == STATIC_IF_EVALUATE_ternary_if_true && condition->operation == STATIC_IF_EVALUATE_ternary_condition);
                 
+                is_unsigned |= if_true->is_unsigned;
                 value = condition->value ? if_true->value : value;
             }break;
             
-- 
2.43.0


From bcfa36f8d30a2361321c3ba06e16912930835c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:42 +0000
Subject: [PATCH 014/157] fix: layout of anonymous, zero-width and union
 bit-fields; alignment specifiers under #pragma pack, in arrays and on locals

---
 src/ast.c   |  7 +++--
 src/main.c  |  3 +-
 src/parse.c | 83 +++++++++++++++++++++++++++++++++++++----------------
 3 files changed, 66 insertions(+), 27 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 0524d75..7fe2110 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -487,7 +487,6 @@ enum type_flags{
     TYPE_FLAG_ends_in_array_of_unknown_size = 0x4,
     TYPE_FLAG_is_intrin_type = 0x8,
     TYPE_FLAG_is_atomic      = 0x10,
-    TYPE_FLAG_is_user_aligned = 0x20,
 };
 
 struct ast_type{
@@ -621,7 +620,7 @@ struct ast_bitfield_type{
 
 inline smm get_declaration_alignment(struct ast_declaration *decl){
     smm alignment = decl->type->alignment;
-    if(decl->overwrite_alignment) alignment = decl->overwrite_alignment;
+    if(decl->overwrite_alignment > alignment) alignment = decl->overwrite_alignment;
     return alignment;
 }
 
@@ -706,6 +705,10 @@ struct ast_compound_type{
     struct token *identifier;
     struct compilation_unit *compilation_unit;
     
+    // The alignment required by '__declspec(align(_))' or '_Alignas' on the type or (recursively) any of its members, or zero.
+    // '#pragma pack' does not reduce this alignment.
+    smm required_alignment;
+    
     // A dynamic array for the members.
     // Contains both the linear members (meaning unnamed members "expanded") 
     // as well as the nested members. :member_list_contains_both_linear_and_nested
diff --git a/src/main.c b/src/main.c
index f0f0d04..be572a9 100644
--- a/src/main.c
+++ b/src/main.c
@@ -2172,8 +2172,9 @@ func void parser_emit_memory_location(struct context *context, struct ast_declar
     smm alignment = get_declaration_alignment(decl);
     smm size      = get_declaration_size(decl);
     
-    context->current_emit_offset_of_rsp = cast(smm)align_up(context->current_emit_offset_of_rsp, alignment);
+    // The address of the declaration is '[rbp - offset]', hence the offset has to be aligned _after_ adding the size.
     context->current_emit_offset_of_rsp += size;
+    context->current_emit_offset_of_rsp = cast(smm)align_up(context->current_emit_offset_of_rsp, alignment);
     
     if(context->current_emit_offset_of_rsp > max_s32){
         report_error(context, decl->identifier, "Too many local variables. At most '0x%x' bytes of stack are allowed.", max_s32);
diff --git a/src/parse.c b/src/parse.c
index 5125b53..8682d68 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -8014,7 +8014,7 @@ case TOKEN_##type_name:{                                                 \
                     }
                     
                     if(is_intrin_type) compound->base.flags |= TYPE_FLAG_is_intrin_type;
-                    if(has_declspec_alignment) compound->base.flags |= TYPE_FLAG_is_user_aligned;
+                    if(has_declspec_alignment) compound->required_alignment = declspec_alignment;
                     if(name){
                         compound->identifier = name;
                     }else{
@@ -8029,6 +8029,7 @@ case TOKEN_##type_name:{                                                 \
                     
                     struct ast_type *current_bitfield_type = null;
                     s64 current_bitfield_index = 0;
+                    smm current_bitfield_offset = 0;
                     
                     struct token *had_array_of_unknown_size = null;
                     
@@ -8127,8 +8128,32 @@ case TOKEN_##type_name:{                                                 \
                                 compound->base.flags |= TYPE_FLAG_ends_in_array_of_unknown_size;
                             }
                             
+                            smm decl_alignment = declarator.type->alignment;
+                            if(is_packed){
+                                decl_alignment = 1; // If the struct is __declspec(packed), overwrite the _natural_ alignment.
+                            }else if(decl_alignment > context->pragma_alignment){
+                                decl_alignment = context->pragma_alignment;
+                            }
+                            
+                            // 
+                            // Alignment specifiers of the member or its type can only ever increase the alignment 
+                            // and are not affected by '#pragma pack'.
+                            // 
+                            smm required_alignment = max_of((smm)struct_specifiers.alignment, 0);
+                            
+                            struct ast_type *element_type = declarator.type;
+                            while(element_type->kind == AST_array_type) element_type = ((struct ast_array_type *)element_type)->element_type;
+                            if(element_type->kind == AST_struct || element_type->kind == AST_union){
+                                required_alignment = max_of(required_alignment, ((struct ast_compound_type *)element_type)->required_alignment);
+                            }
+                            
+                            if(required_alignment){
+                                decl_alignment = max_of(decl_alignment, required_alignment);
+                                compound->required_alignment = max_of(compound->required_alignment, required_alignment);
+                            }
+                            
                             // :bitfields :parse_bitfields
-                            b32 this_was_a_bitfield_type_that_fits = false;
+                            b32 this_was_a_bitfield = false;
                             if(peek_token(context, TOKEN_colon)){
                                 struct token *colon = next_token(context);
                                 
@@ -8148,6 +8173,18 @@ case TOKEN_##type_name:{                                                 \
                                 //  that no further bit-field is to be packed into the unit in which the previous 
                                 //  bitfield, if any, was placed."
                                 if(width == 0){
+                                    // 
+                                    // A zero-width bitfield is ignored, unless it follows a non-zero-width bitfield.
+                                    // 
+                                    if(current_bitfield_type){
+                                        if(is_union){
+                                            size = max_of(declarator.type->size, size);
+                                        }else{
+                                            size = align_up(size, decl_alignment);
+                                            alignment = max_of(decl_alignment, alignment);
+                                        }
+                                    }
+                                    
                                     current_bitfield_type = null;
                                     current_bitfield_index = 0;
                                     
@@ -8170,21 +8207,31 @@ case TOKEN_##type_name:{                                                 \
                                 
                                 u64 bitfield_base = current_bitfield_index;
                                 
-                                if(current_bitfield_type && current_bitfield_type->size == declarator.type->size && current_bitfield_index + width <= declarator.type->size * 8){
+                                if(!is_union && current_bitfield_type && current_bitfield_type->size == declarator.type->size && current_bitfield_index + width <= declarator.type->size * 8){
+                                    current_bitfield_index += width;
+                                }else{
                                     // 
-                                    // If there was no prior named bitfield, it was not a bitfield that fits. This can happen for e.g.:
+                                    // Allocate a new unit, even if the bitfield is anonymous, e.g.:
                                     //   
                                     //   struct { int : 4; int a: 4; };
                                     // 
-                                    if(compound->amount_of_members) this_was_a_bitfield_type_that_fits = true;
+                                    if(is_union){
+                                        current_bitfield_offset = 0;
+                                        size = max_of(declarator.type->size, size);
+                                    }else{
+                                        size = align_up(size, decl_alignment);
+                                        current_bitfield_offset = size;
+                                        size += declarator.type->size;
+                                        alignment = max_of(decl_alignment, alignment);
+                                    }
                                     
-                                    current_bitfield_index += width;
-                                }else{
                                     bitfield_base = 0;
                                     current_bitfield_type  = declarator.type;
                                     current_bitfield_index = width;
                                 }
                                 
+                                this_was_a_bitfield = true;
+                                
                                 if(declarator.ident == globals.invalid_identifier_token){
                                     // 
                                     // If this was an anonymous bitfield, do not create a declaration for it.
@@ -8219,24 +8266,11 @@ case TOKEN_##type_name:{                                                 \
                                 current_bitfield_index = 0;
                             }
                             
-                            smm decl_alignment = declarator.type->alignment;
-                            if(struct_specifiers.alignment){ 
-                                decl_alignment = struct_specifiers.alignment; // Member specifiers are the most inner so they should take precedence.
-                                compound->base.flags |= TYPE_FLAG_is_user_aligned;
-                            }else if(is_packed){
-                                decl_alignment = 1; // If the struct is __declspec(packed), overwrite the _natural_ alignment.
-                            }else if(!(declarator.type->flags & TYPE_FLAG_is_user_aligned) && decl_alignment > context->pragma_alignment){
-                                decl_alignment = context->pragma_alignment;
-                            }
-                            
                             smm offset_in_type;
                             
-                            if(this_was_a_bitfield_type_that_fits){
-                                // 
-                                // Copy the offset from the previous bitfield type.
-                                // 
-                                assert(compound->members[compound->amount_of_members-1].type->kind == AST_bitfield_type);
-                                offset_in_type = compound->members[compound->amount_of_members-1].offset_in_type;
+                            if(this_was_a_bitfield){
+                                // The unit of the bitfield was allocated above.
+                                offset_in_type = current_bitfield_offset;
                             }else if(is_union){
                                 offset_in_type = 0;
                                 size = max_of(declarator.type->size, size);
@@ -8251,7 +8285,8 @@ case TOKEN_##type_name:{                                                 \
                             }
                             
                             // The alignment is the strictest alignment for any of the members.
-                            alignment = max_of(decl_alignment, alignment);
+                            // (The alignment of a bitfield was handled when its unit was allocated.)
+                            if(!this_was_a_bitfield) alignment = max_of(decl_alignment, alignment);
                             
                             if(!context->should_exit_statement){
                                 
-- 
2.43.0


From 5f3a1128da1a55e2d2ec79ac4d579ae6a9ad266e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 015/157] fix: crash on #pragma pack(push, 1) inside a
 global-scope declaration

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index be572a9..398b57f 100644
--- a/src/main.c
+++ b/src/main.c
@@ -3126,7 +3126,7 @@ func void worker_preprocess_file(struct context *context, struct work_queue_entr
         if(start_pragma_pack_node != context->pragma_pack_stack.first){
             
             int handled = false;
-            if(start_pragma_pack_node->next == context->pragma_pack_stack.first){
+            if(start_pragma_pack_node && start_pragma_pack_node->next == context->pragma_pack_stack.first){
                 // 
                 // Stupid hack for stuff like:
                 //    
-- 
2.43.0


From f3b93b4ba6ca1b386fd6a432b81f6d06699ace77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 016/157] fix: an error in the initializer of a global literal
 stops the compilation

---
 src/main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.c b/src/main.c
index 398b57f..4d0f4fc 100644
--- a/src/main.c
+++ b/src/main.c
@@ -5626,8 +5626,12 @@ globals.typedef_##postfix = (struct ast_type){
             struct ast_declaration *decl = (struct ast_declaration *)it->value;
             decl->memory_location = evaluate_static_initializer(thread_context, decl);
         }
+        
+        if(thread_context->error) globals.an_error_has_occurred = true;
     }
     
+    if(globals.an_error_has_occurred) goto end;
+    
     stage_three_emit_code_time = os_get_time_in_seconds() - stage_three_emit_code_time;
     
     //
-- 
2.43.0


From e740b0f64759d607528fd55220a0e7c939619f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 017/157] fix: support dereferences of address constants in
 static initializers

---
 src/main.c | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 4d0f4fc..fdcde01 100644
--- a/src/main.c
+++ b/src/main.c
@@ -2367,6 +2367,26 @@ func void evaluate_static_initializer__internal(struct context *context, struct
                 ir_stack[ir_stack_at-1].offset += dot->member->offset_in_type;
             }break;
             
+            case IR_deref:{
+                // 
+                // Dereferencing an address constant gives us back the lvalue it is the address of, e.g.: '&(*(array + 1)).member'.
+                // 
+                ir_offset += sizeof(struct ir_deref);
+                
+                if(!ir_stack[ir_stack_at-1].is_address || !ir_stack[ir_stack_at-1].ir) goto initializer_not_constant;
+                ir_stack[ir_stack_at-1].is_address = 0;
+            }break;
+            
+            case IR_member_deref:{
+                ir_offset += sizeof(struct ir_dot_or_arrow);
+                
+                if(!ir_stack[ir_stack_at-1].is_address || !ir_stack[ir_stack_at-1].ir) goto initializer_not_constant;
+                
+                struct ir_dot_or_arrow *arrow = (struct ir_dot_or_arrow *)ir_node;
+                ir_stack[ir_stack_at-1].offset += arrow->member->offset_in_type;
+                ir_stack[ir_stack_at-1].is_address = 0;
+            }break;
+            
             case IR_load_address:{
                 ir_offset += sizeof(struct ir);
                 
@@ -2390,13 +2410,18 @@ func void evaluate_static_initializer__internal(struct context *context, struct
                 ir_stack[ir_stack_at-1] = lhs;
             }break;
             
-            case IR_array_subscript:{
+            case IR_pointer_subscript: case IR_array_subscript:{
                 struct ir_subscript *subscript = (struct ir_subscript *)ir_node;
                 ir_offset += sizeof(struct ir_subscript);
                 ir_stack_at -= 1;
                 
                 struct ir *index = ir_stack[ir_stack_at].ir;
                 
+                if(ir_node->kind == IR_pointer_subscript){
+                    if(!ir_stack[ir_stack_at-1].is_address || !ir_stack[ir_stack_at-1].ir) goto initializer_not_constant;
+                    ir_stack[ir_stack_at-1].is_address = 0;
+                }
+                
                 if(index->kind == IR_integer_literal){
                     ir_stack[ir_stack_at-1].offset += integer_literal_to_bytes((struct ir *)index) * subscript->type->size;
                 }else{
-- 
2.43.0


From 5adc4204ff3631ecd3a608e0464320d7a1718571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 018/157] fix: offset into a string literal was ignored in
 static initializers

---
 src/coff_writer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/coff_writer.c b/src/coff_writer.c
index 36bb330..263baa5 100644
--- a/src/coff_writer.c
+++ b/src/coff_writer.c
@@ -1721,6 +1721,7 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
                     struct ir_string_literal *lit = (struct ir_string_literal *)patch->source;
                     
                     source_location = (smm)lit->relative_virtual_address + image_optional_header->image_base;
+                    source_location += patch->location_offset_in_source_declaration;
                 }
                 
                 *cast(smm *)memory_location = source_location;
-- 
2.43.0


From 1783af4151bb387543d00911538bc649bcd9f4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 019/157] fix: element type of unsigned arrays initialized by
 string literals

---
 src/parse.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 8682d68..f3e1b1f 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -2862,9 +2862,16 @@ func void parse_initializer(struct context *context, struct ast_declaration *dec
                 
                 if(lhs_type->is_of_unknown_size){
                     // 
-                    // We want the type to be patched to the type of the string literal.
+                    // We want the size to be patched to the size of the string literal.
+                    // The element type might differ, e.g.: 'unsigned char a[] = "asd";'.
                     // 
-                    type = &rhs_type->base;
+                    struct ast_array_type *array_type = parser_type_push(context, array_type);
+                    array_type->element_type              = lhs_type->element_type;
+                    array_type->element_type_defined_type = lhs_type->element_type_defined_type;
+                    
+                    patch_array_size(context, array_type, rhs_type->amount_of_elements, equals);
+                    
+                    type = &array_type->base;
                 }else if(lhs_type->amount_of_elements == (rhs_type->amount_of_elements - 1)){
                     // 
                     // Here we are in the 'char a[3] = "asd"' case.
-- 
2.43.0


From e2da0f4cf186621dcc5d38f2327fcfee6dcc004b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 020/157] fix: only character arrays can be initialized by a
 string literal

---
 src/parse.c | 80 +++++++++++++++++++++++++++++------------------------
 1 file changed, 44 insertions(+), 36 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index f3e1b1f..4a7cc73 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -2086,6 +2086,20 @@ func struct ast_type *get_current_object_type_for_designator_node(struct designa
     return current_object_type;
 }
 
+// Returns true, if an object of type 'type' can be initialized by the string literal 'string'.
+// These are only arrays of integers (and not e.g. arrays of arrays or arrays of structs), which have the element size of the string.
+func int type_can_be_initialized_by_string_literal(struct ast_type *type, struct expr *string){
+    
+    if(type->kind != AST_array_type || string->ir->kind != IR_string_literal) return 0;
+    
+    struct ast_type *wanted_element = ((struct ast_array_type *)type)->element_type;
+    struct ast_type *given_element  = ((struct ast_array_type *)string->resolved_type)->element_type;
+    
+    if(wanted_element->kind != AST_integer_type || wanted_element == &globals.typedef_Bool) return 0;
+    
+    return wanted_element->size == given_element->size;
+}
+
 func void parse_initializer_list(struct context *context, struct ast_type *type_to_initialize, u64 base_offset, smm *out_trailing_initializer_size){
     
     struct token *initial_open_curly = next_token(context);
@@ -2502,7 +2516,7 @@ func void parse_initializer_list(struct context *context, struct ast_type *type_
         }else{
             struct expr expression = parse_expression(context, /*skip_comma_expression*/true);
             
-            if(designator_stack.first->member_at == 0 && expression.ir->kind == IR_string_literal && designator_stack.first->lhs_type->kind == AST_array_type){
+            if(designator_stack.first == &initial_list_node && initial_list_node.array_at == 0 && type_can_be_initialized_by_string_literal(type_to_initialize, &expression)){
                 // 
                 // The C-spec allows the initializer of a character array to be optionally brace enclosed.
                 // In this case, we end up here.
@@ -2517,29 +2531,26 @@ func void parse_initializer_list(struct context *context, struct ast_type *type_
                 //  
                 // 
                 
-                struct ast_array_type *wanted_array = (struct ast_array_type *)designator_stack.first->lhs_type;
+                struct ast_array_type *wanted_array = (struct ast_array_type *)type_to_initialize;
                 struct ast_array_type *given_array  = (struct ast_array_type *)expression.resolved_type;
                 
-                if(wanted_array->element_type->size == given_array->element_type->size){
-                    
-                    // Pop one layer off the designator stack, making `designator_stack.first->lhs_type` the current object type.
-                    current_object_type = designator_stack.first->lhs_type;
-                    sll_pop_front(designator_stack);
-                    
-                    if(wanted_array->is_of_unknown_size){
-                        trailing_initializer_size = max_of(trailing_initializer_size, given_array->base.size);
-                    }else if(wanted_array->amount_of_elements < given_array->amount_of_elements - /*zero-terminator*/1){
-                        report_error(context, site, "Array initialized to string literal of size %lld, but the array size is only %lld.", given_array->amount_of_elements, wanted_array->amount_of_elements);
-                        goto error;
-                    }
-                    
-                    struct ir_initializer *initializer = push_uninitialized_struct(&context->ir_arena, struct ir_initializer);
-                    initializer->base.kind = IR_initializer;
-                    initializer->offset = designator_stack.first ? designator_stack.first->offset_at : base_offset;
-                    initializer->lhs_type = current_object_type;
-                    
-                    continue;
+                // Pop one layer off the designator stack, making `designator_stack.first->lhs_type` the current object type.
+                current_object_type = designator_stack.first->lhs_type;
+                sll_pop_front(designator_stack);
+                
+                if(wanted_array->is_of_unknown_size){
+                    trailing_initializer_size = max_of(trailing_initializer_size, given_array->base.size);
+                }else if(wanted_array->amount_of_elements < given_array->amount_of_elements - /*zero-terminator*/1){
+                    report_error(context, site, "Array initialized to string literal of size %lld, but the array size is only %lld.", given_array->amount_of_elements, wanted_array->amount_of_elements);
+                    goto error;
                 }
+                
+                struct ir_initializer *initializer = push_uninitialized_struct(&context->ir_arena, struct ir_initializer);
+                initializer->base.kind = IR_initializer;
+                initializer->offset = designator_stack.first ? designator_stack.first->offset_at : base_offset;
+                initializer->lhs_type = current_object_type;
+                
+                continue;
             }
             
             if(expression.ir->kind == IR_compound_literal){
@@ -2552,7 +2563,7 @@ func void parse_initializer_list(struct context *context, struct ast_type *type_
             
             while(true){
                 
-                if(current_object_type->kind == AST_array_type && expression.ir->kind == IR_string_literal){
+                if(type_can_be_initialized_by_string_literal(current_object_type, &expression)){
                     // 
                     // This is the case for:
                     //      struct { u8 array[8]; } asd = {"asd"};
@@ -2560,21 +2571,18 @@ func void parse_initializer_list(struct context *context, struct ast_type *type_
                     struct ast_array_type *wanted_array = (struct ast_array_type *)current_object_type;
                     struct ast_array_type *given_array = (struct ast_array_type *)expression.resolved_type;
                     
-                    if(wanted_array->element_type->size == given_array->element_type->size){
-                        
-                        if(wanted_array->is_of_unknown_size){
-                            trailing_initializer_size = max_of(trailing_initializer_size, given_array->base.size);
-                        }else if(wanted_array->amount_of_elements < given_array->amount_of_elements - /*zero-terminator*/1){
-                            report_error(context, site, "Array initialized to string literal of size %lld, but the array size is only %lld.", given_array->amount_of_elements, wanted_array->amount_of_elements);
-                            goto error;
-                        }
-                        
-                        struct ir_initializer *initializer = push_uninitialized_struct(&context->ir_arena, struct ir_initializer);
-                        initializer->base.kind = IR_initializer;
-                        initializer->offset = designator_stack.first->offset_at;
-                        initializer->lhs_type = current_object_type;
-                        break;
+                    if(wanted_array->is_of_unknown_size){
+                        trailing_initializer_size = max_of(trailing_initializer_size, given_array->base.size);
+                    }else if(wanted_array->amount_of_elements < given_array->amount_of_elements - /*zero-terminator*/1){
+                        report_error(context, site, "Array initialized to string literal of size %lld, but the array size is only %lld.", given_array->amount_of_elements, wanted_array->amount_of_elements);
+                        goto error;
                     }
+                    
+                    struct ir_initializer *initializer = push_uninitialized_struct(&context->ir_arena, struct ir_initializer);
+                    initializer->base.kind = IR_initializer;
+                    initializer->offset = designator_stack.first->offset_at;
+                    initializer->lhs_type = current_object_type;
+                    break;
                 }
                 
                 if(types_are_equal(expression.resolved_type, current_object_type)){
-- 
2.43.0


From 0801055d37ca72c233ecb9f95cc5358ba9a1b650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 021/157] fix: initializer following a designator for a member
 of an unnamed member

---
 src/parse.c | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index 4a7cc73..6731a84 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -2279,6 +2279,38 @@ func void parse_initializer_list(struct context *context, struct ast_type *type_
                         goto error;
                     }
                     
+                    // 
+                    // If the member is contained in an unnamed member, e.g.:
+                    //     
+                    //     union { int first; struct { int a; int b; }; } u = { .a = 1, 2};
+                    //     
+                    // push a node for the unnamed member, such that initializers after the designator
+                    // initialize the rest of the unnamed member.
+                    // 
+                    while(true){
+                        struct compound_member *unnamed_member = null;
+                        
+                        for(struct compound_member *member = compound->members; member < found; member += member->next_member_increment){
+                            if(member->name == globals.invalid_identifier_token && found < member + member->next_member_increment){
+                                unnamed_member = member;
+                                break;
+                            }
+                        }
+                        
+                        if(!unnamed_member) break;
+                        
+                        designator_stack.first->member_at = unnamed_member - compound->members;
+                        designator_stack.first->offset_at += unnamed_member->offset_in_type;
+                        
+                        struct designator_node *unnamed_node = push_struct(&context->scratch, struct designator_node);
+                        unnamed_node->lhs_type  = unnamed_member->type;
+                        unnamed_node->offset_at = designator_stack.first->offset_at;
+                        sll_push_front(designator_stack, unnamed_node);
+                        
+                        compound = (struct ast_compound_type *)unnamed_member->type;
+                        found = find_member_in_compound(compound, identifier->atom);
+                    }
+                    
                     u64 new_offset = designator_stack.first->offset_at + found->offset_in_type;
                     
                     designator_stack.first->member_at = found - compound->members;
-- 
2.43.0


From be2b2c97ae3c04908077745c21f7d82e931b15b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 022/157] fix: initializers of aggregates whose first member is
 not at offset zero

---
 src/parse.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 6731a84..929cba3 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -2190,7 +2190,11 @@ func void parse_initializer_list(struct context *context, struct ast_type *type_
             }
         }
         
+        // 
+        // @note: The first member is not necessarily at offset zero, e.g.: struct { int : 4; char member; }
+        // 
         initial_node.member_at = 0;
+        if(ast_struct->amount_of_members) initial_node.offset_at += ast_struct->members[0].offset_in_type;
     }
     
     // :trailing_arrays
@@ -2249,6 +2253,7 @@ func void parse_initializer_list(struct context *context, struct ast_type *type_
             
             // Reset the 'current_object'.
             initial_list_node = initial_node;
+            initial_list_node.offset_at = base_offset;
             designator_stack.first = &initial_list_node;
             designator_stack.last  = &initial_list_node;
             
@@ -2645,7 +2650,7 @@ func void parse_initializer_list(struct context *context, struct ast_type *type_
                     // 
                     new_node = push_struct(&context->scratch, struct designator_node);
                     new_node->lhs_type = current_object_type;
-                    new_node->offset_at = designator_stack.first->offset_at;
+                    new_node->offset_at = designator_stack.first->offset_at + compound->members[0].offset_in_type;
                     new_node->member_at = 0;
                 }else if(type->kind == AST_array_type){
                     new_node = push_struct(&context->scratch, struct designator_node);
-- 
2.43.0


From ce1b7f7193b9998de740ca80c12c14170949ab7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 023/157] fix: size of arrays of unknown size whose initializer
 ends in an elided or trailing-comma element

---
 src/parse.c | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 929cba3..b911e62 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -2672,6 +2672,21 @@ func void parse_initializer_list(struct context *context, struct ast_type *type_
             }
         }
         
+        // :trailing_arrays
+        // 
+        // If the object we just initialized is contained in an array of unknown size, the array has to contain 
+        // the whole current element, even if the initializer list ends in the middle of it.
+        // 
+        for(struct designator_node *node = designator_stack.first; node; node = node->next){
+            if(node->lhs_type->kind != AST_array_type) continue;
+            
+            struct ast_array_type *array = (struct ast_array_type *)node->lhs_type;
+            if(!array->is_of_unknown_size) continue;
+            
+            smm array_size = (node->array_at + 1) * array->element_type->size; // @cleanup: overflow
+            trailing_initializer_size = max_of(trailing_initializer_size, array_size);
+        }
+        
         int at_end = peek_token(context, TOKEN_closed_curly) != 0;
         
         while(true){
@@ -2703,23 +2718,12 @@ func void parse_initializer_list(struct context *context, struct ast_type *type_
                 node->array_at++;
                 node->offset_at += array->element_type->size;
                 
-                if(array->is_of_unknown_size){
-                    
-                    // :trailing_arrays
-                    // 
-                    // If we are initializing an array of unknown size, we are at the trailing 
-                    // array member of the structure, otherwise the parsing code would have rejected
-                    // the structure.
-                    // 
-                    
-                    smm amount_of_elements = node->array_at;
-                    smm element_size = array->element_type->size;
-                    
-                    smm array_size = amount_of_elements * element_size; // @cleanup: overflow
-                    
-                    trailing_initializer_size = max_of(trailing_initializer_size, array_size);
-                    break;
-                }
+                // 
+                // If we are initializing an array of unknown size, we are at the trailing 
+                // array member of the structure, otherwise the parsing code would have rejected
+                // the structure.
+                // 
+                if(array->is_of_unknown_size) break;
                 if(!at_end && (node->array_at < array->amount_of_elements)) break;
             }
             
-- 
2.43.0


From d40de58d06c78684fe9f4fcc949f1db827fe5d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:45 +0000
Subject: [PATCH 024/157] fix: a null directive ended a skipped group of
 preprocessor conditionals

---
 src/preprocess.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/preprocess.c b/src/preprocess.c
index 8022a54..462cd71 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -3662,6 +3662,9 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
             
             if(peek_token_raw(context, TOKEN_newline)){
                 // do nothing
+                if(static_if_stack.first && !static_if_stack.first->is_true){
+                    goto jump_because_a_postponed_static_if_was_disabled_and_we_should_search_for_the_next_directive;
+                }
                 continue;
             }
             
-- 
2.43.0


From dbe6f1b140e809a783d8f22edcc8249372fd9f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:45 +0000
Subject: [PATCH 025/157] fix: a disabled macro name in a macro argument stayed
 available for expansion if it was not followed by a '('

---
 src/preprocess.c | 62 ++++++++++++++++++++++++++----------------------
 1 file changed, 33 insertions(+), 29 deletions(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index 462cd71..c0beae2 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -2241,49 +2241,53 @@ func struct token *expand_define(struct context *context, struct token *token_to
                         struct token *token = next_token_raw(context);
                         if(token->type == TOKEN_invalid) break;
                         
+                        struct token *skipped_whitespace = null;
+                        
                         if(token->type == TOKEN_identifier){
                             struct define_node *define_in_argument = lookup_define(context, token->atom);
                             if(define_in_argument){
+                                if(define_in_argument->is_disabled){
+                                    dynarray_maybe_grow(struct token, &context->scratch, array, amount, capacity);
+                                    
+                                    // We have to prevent this identifier from being expanded again, after the define might be reenabled.
+                                    // For example:
+                                    // 
+                                    //     #define member a.member
+                                    //     #define def(m) m
+                                    //     def(member);
+                                    //     
+                                    // def(member) -> expand(a.member) -> a.member
+                                    // 
+                                    // This is because of the following passage from the c-spec:
+                                    // 
+                                    // "Furthermore, if any nested replacements encounter the name of the macro being replaced,
+                                    //  it is not replaced. These nonreplaced macro name preprocessing tokens are no longer
+                                    //  available for further replacement even if they are later (re)examined in contexts in which
+                                    //  that macro name preprocessing token would otherwise have been replaced.
+                                    // 
+                                    // We implement this by making these tokens not identifiers anymore.
+                                    // 
+                                    struct token *new_token = &array[amount++];
+                                    *new_token = *token;
+                                    new_token->type = TOKEN_identifier_dont_expand_because_it_comes_from_a_fully_expanded_macro;
+                                    continue;
+                                }
                                 
                                 int skip = 0;
                                 
                                 if(define_in_argument->is_function_like){
+                                    struct token *token_after_identifier = get_current_token_raw(context);
                                     eat_whitespace_comments_and_newlines(context); 
                                     if(!peek_token_raw(context, TOKEN_open_paren)){
                                         skip = 1;
+                                        
+                                        if(token_after_identifier != get_current_token_raw(context)) skipped_whitespace = token_after_identifier;
                                     }
                                 }
                                 
                                 if(!skip){
-                                    if(define_in_argument->is_disabled){
-                                        dynarray_maybe_grow(struct token, &context->scratch, array, amount, capacity);
-                                        
-                                        // We have to prevent this identifier from being expanded again, after the define might be reenabled.
-                                        // For example:
-                                        // 
-                                        //     #define member a.member
-                                        //     #define def(m) m
-                                        //     def(member);
-                                        //     
-                                        // def(member) -> expand(a.member) -> a.member
-                                        // 
-                                        // This is because of the following passage from the c-spec:
-                                        // 
-                                        // "Furthermore, if any nested replacements encounter the name of the macro being replaced,
-                                        //  it is not replaced. These nonreplaced macro name preprocessing tokens are no longer
-                                        //  available for further replacement even if they are later (re)examined in contexts in which
-                                        //  that macro name preprocessing token would otherwise have been replaced.
-                                        // 
-                                        // We implement this by making these tokens not identifiers anymore.
-                                        // 
-                                        struct token *new_token = &array[amount++];
-                                        *new_token = *token;
-                                        new_token->type = TOKEN_identifier_dont_expand_because_it_comes_from_a_fully_expanded_macro;
-                                        continue;
-                                    }else{
-                                        token = expand_define(context, token, define_in_argument, macro_expansion_site);
-                                        if(!token) continue; 
-                                    }
+                                    token = expand_define(context, token, define_in_argument, macro_expansion_site);
+                                    if(!token) continue; 
                                 } 
                             }
                         }
-- 
2.43.0


From b405c99203d1d55d8f075106722c3b9269bbb1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:53 +0000
Subject: [PATCH 026/157] fix: whitespace between the tokens of a macro
 replacement list was lost when stringizing

---
 src/preprocess.c | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index c0beae2..a7ee342 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -4006,6 +4006,7 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                     smm stringify_count = 0;
                     struct token *define_tokens = null;
                     smm token_stack_node_count = 0;
+                    struct token *whitespace_after_argument = null;
                     
                     // :newline_at_the_end_of_the_file
                     // 
@@ -4015,13 +4016,33 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                     while(!peek_token_raw(context, TOKEN_newline)){
                         b32 handled = false;
                         
-                        if(peek_token_raw(context, TOKEN_identifier)){
+                        // 
+                        // Whitespace between two tokens of the replacement list is retained, because it might get
+                        // stringified later on. Whitespace around '##' and trailing whitespace is deleted.
+                        // 
+                        struct token *whitespace = whitespace_after_argument;
+                        whitespace_after_argument = null;
+                        
+                        if(!whitespace){
+                            struct token *token = get_current_token_raw(context);
+                            eat_whitespace_and_comments(context);
+                            
+                            if(peek_token_raw(context, TOKEN_newline)) break;
+                            if(token != get_current_token_raw(context) && !peek_token_raw(context, TOKEN_hashhash)) whitespace = token;
+                        }
+                        
+                        if(whitespace){
+                            // handled below.
+                        }else if(peek_token_raw(context, TOKEN_identifier)){
                             struct token *ident = get_current_token_raw(context);
                             struct define_argument *arg = lookup_define_argument(arguments, ident);
                             if(arg){
                                 next_token_raw(context);
                                 handled = true;
+                                
+                                struct token *token_after_argument = get_current_token_raw(context);
                                 eat_whitespace_and_comments(context);
+                                if(token_after_argument != get_current_token_raw(context)) whitespace_after_argument = token_after_argument;
                                 
                                 struct define_replacement_node *replacement = push_struct(&context->scratch, struct define_replacement_node);
                                 
@@ -4034,6 +4055,8 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                                     replacement->prefix_argument  = arg->argument_index;
                                     replacement->postfix_argument = -1;
                                     
+                                    whitespace_after_argument = null;
+                                    
                                     token_stack_node_count += 3; // Prefix, merged, postfix.
                                     
                                     if(peek_token_raw(context, TOKEN_newline)){
@@ -4153,7 +4176,7 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                             }
                             
                             define_amount++;
-                            *push_uninitialized_struct(&context->scratch, struct token) = *next_token_raw(context);
+                            *push_uninitialized_struct(&context->scratch, struct token) = whitespace ? *whitespace : *next_token_raw(context);
                             replacement_list.last->tokens.amount = define_amount;
                         }else{
                             
@@ -4161,8 +4184,6 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                             define_amount   = 0;
                             define_tokens = null;
                         }
-                        
-                        eat_whitespace_and_comments(context);
                     }
                     
                     struct define_node *redecl = lookup_define(context, name);
-- 
2.43.0


From 7d92bd73ca03e1ae5bebbd528a4b17f627ffecf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:53 +0000
Subject: [PATCH 027/157] fix: whitespace after the name of a function-like
 macro which is not invoked was lost when stringizing

---
 src/preprocess.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/preprocess.c b/src/preprocess.c
index a7ee342..9abe72e 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -2296,6 +2296,15 @@ func struct token *expand_define(struct context *context, struct token *token_to
                         
                         dynarray_maybe_grow(struct token, &context->scratch, array, amount, capacity);
                         array[amount++] = *token;
+                        
+                        if(skipped_whitespace){
+                            // 
+                            // We looked past the whitespace after the name of a function-like macro for a '('.
+                            // Retain the whitespace, it might get stringified.
+                            // 
+                            dynarray_maybe_grow(struct token, &context->scratch, array, amount, capacity);
+                            array[amount++] = *skipped_whitespace;
+                        }
                     }
                     
                     expanded_argument_tokens[arg->argument_index].data   = array;
-- 
2.43.0


From 0f2c4f0cd4fe7c1a3e1b908808f0a50bb5eb008c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:54 +0000
Subject: [PATCH 028/157] fix: the newline after the name of a function-like
 macro was skipped, missing the following directive

---
 src/preprocess.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index 9abe72e..97da578 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -1817,13 +1817,20 @@ func void eat_whitespace_and_comments(struct context *context){
     }while(did_something);
 }
 
-func void eat_whitespace_comments_and_newlines(struct context *context){
+// Returns whether or not there was a newline.
+func b32 eat_whitespace_comments_and_newlines(struct context *context){
+    b32 got_newline = false;
     smm did_something;
     do{
         did_something  = (smm)peek_token_eat_raw(context, TOKEN_whitespace);
         did_something |= (smm)peek_token_eat_raw(context, TOKEN_comment);
-        did_something |= (smm)peek_token_eat_raw(context, TOKEN_newline);
+        
+        if(peek_token_eat_raw(context, TOKEN_newline)){
+            did_something = true;
+            got_newline = true;
+        }
     }while(did_something);
+    return got_newline;
 }
 
 
@@ -3510,6 +3517,8 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                 break;
             }
             
+            b32 skipped_newline = false;
+            
             if(token->type == TOKEN_identifier){
                 struct define_node *define = lookup_define(context, token->atom);
                 if(define && !define->is_disabled){
@@ -3518,7 +3527,13 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                     
                     int skip = 0;
                     if(define->is_function_like){
-                        eat_whitespace_comments_and_newlines(context); 
+                        if(have_postponed_directive){
+                            // The newline ends the directive.
+                            eat_whitespace_and_comments(context);
+                        }else{
+                            skipped_newline = eat_whitespace_comments_and_newlines(context);
+                        }
+                        
                         if(!peek_token_raw(context, TOKEN_open_paren)){
                             skip = 1;
                         }
@@ -3606,7 +3621,8 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                 continue; // Don't emit the newline token.
             }
             
-            got_newline = false;
+            // If the token is the name of a function-like macro, we might have looked past the end of the line for a '('.
+            got_newline = skipped_newline;
             
             if(emitted_tokens == committed_tokens){
                 if(committed_tokens == reserved_tokens){
-- 
2.43.0


From d20321f5bc5f7c0859d9e408089bd7e613b7583c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 029/157] fix: a concatenation following an empty concatenation
 pasted with an unrelated token

---
 src/preprocess.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index 97da578..c020bb1 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -2344,8 +2344,14 @@ func struct token *expand_define(struct context *context, struct token *token_to
     
     struct token_stack_node *define_token_stack_at = context->token_stack.nodes + (define_token_stack_start + define_token_stack_count - 1);
     
+    // Set if the last replacement was a '##' which produced no token.
+    b32 last_concatenation_is_empty = false;
+    
     for(struct define_replacement_node *replacement = define->replacement_list.first; replacement; replacement = replacement->next){
         
+        b32 prefix_is_empty_concatenation = last_concatenation_is_empty;
+        last_concatenation_is_empty = false;
+        
         // @note: we copy all (relevant) tokens outside the tokenizer, thus all allocations can be on 'scratch'
         switch(replacement->kind){
             case DEFINE_REPLACEMENT_tokens:{
@@ -2404,6 +2410,13 @@ func struct token *expand_define(struct context *context, struct token *token_to
                         
                         prefix_token = arg_tokens.data + arg_tokens.amount - 1;
                     }
+                }else if(prefix_is_empty_concatenation){
+                    // 
+                    // This is a '##' chain and the concatenation before this one produced no token, e.g.:
+                    //     #define C(a,b,c) d a ## b ## c
+                    //     C(,,x)
+                    // 
+                    prefix_is_empty = true;
                 }else{
                     // :cannot_store_prefix
                     // we cannot predict the prefix token while parsing defines, as there can be ## chains and
@@ -2452,7 +2465,10 @@ func struct token *expand_define(struct context *context, struct token *token_to
                 
                 
                 // @note: GCC extension for ', ##  __VA_ARGS__'. And I allow this for any macro.
-                if(postfix_is_empty && !prefix_is_empty && prefix_token->type == TOKEN_comma) break;
+                if(postfix_is_empty && !prefix_is_empty && prefix_token->type == TOKEN_comma){
+                    last_concatenation_is_empty = true;
+                    break;
+                }
                 
                 struct string prev_string = prefix_is_empty  ? string("") : token_get_string(prefix_token);
                 struct string next_string = postfix_is_empty ? string("") : token_get_string(postfix_token);
@@ -2473,6 +2489,8 @@ func struct token *expand_define(struct context *context, struct token *token_to
                     define_token_stack_at -= 1;
                 }
                 
+                last_concatenation_is_empty = (tokens.amount == 0) && (postfix_array.amount == 0);
+                
                 if(postfix_array.data){
                     define_token_stack_at->tokens = postfix_array;
                     define_token_stack_at->at = 0;
-- 
2.43.0


From 552c81303bbc49d2ec3bfafddd7e59dcecb6a689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 030/157] fix: stringizing __VA_ARGS__ without variable
 arguments produced garbage instead of an empty string

---
 src/preprocess.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/preprocess.c b/src/preprocess.c
index c020bb1..1f66757 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -2122,6 +2122,7 @@ func struct token *expand_define(struct context *context, struct token *token_to
                             if(define->is_varargs && !arg->next->next){
                                 // varargs with no arguments in __VA_ARGS__ is fine
                                 argument_token_arrays[arg->next->argument_index] = (struct token_array)zero_struct;
+                                if(arg->next->stringify_index != -1) stringified_arguments[arg->next->stringify_index] = string("\"\"");
                                 break;
                             }
                             
-- 
2.43.0


From c89d2f9e5ee732907edd54ef20a43fcd2463528f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 031/157] fix: an invocation of a macro without parameters was
 rejected if there was a newline between the parentheses

---
 src/preprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index 1f66757..4be3579 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -1979,7 +1979,7 @@ func struct token *expand_define(struct context *context, struct token *token_to
         assert(open_paren->type == TOKEN_open_paren); // This should have been ensured by the outside.
         
         if(sll_is_empty(define->arguments)){
-            eat_whitespace_and_comments(context);
+            eat_whitespace_comments_and_newlines(context);
             
             if(!peek_token_eat_raw(context, TOKEN_closed_paren)){
                 begin_error_report(context);
-- 
2.43.0


From 8caad777791034a2a9d1711bcbb81a3df2fba753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 032/157] fix: a line comment continued by a backslash ended at
 the first line; count spliced lines in character literals

---
 src/preprocess.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index 4be3579..a526d40 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -1528,9 +1528,28 @@ at     += size;
                 }else if(at[1] == '/'){
                     at += 2;
                     
-                    while(*at && *at != '\n') at++;
+                    u8 *last_newline = null;
+                    smm spliced_lines = 0;
                     
-                    next_token__internal(TOKEN_comment, at - start);
+                    while(*at && *at != '\n'){
+                        // 
+                        // A backslash at the end of the line continues the comment in the next line.
+                        // 
+                        if(at[0] == '\\' && (at[1] == '\n' || (at[1] == '\r' && at[2] == '\n'))){
+                            at += (at[1] == '\n') ? 1 : 2;
+                            last_newline = at;
+                            spliced_lines++;
+                        }
+                        at++;
+                    }
+                    
+                    if(spliced_lines){
+                        next_token__internal(TOKEN_comment, 0);
+                        line  += spliced_lines;
+                        column = at - last_newline;
+                    }else{
+                        next_token__internal(TOKEN_comment, at - start);
+                    }
                 }else if(at[1] == '='){
                     next_token__internal_char(TOKEN_div_equals, 2);
                 }else{
@@ -1557,7 +1576,9 @@ at     += size;
                     if(at[0] == '\\'){
                         if(at[1] == '\r' && at[2] == '\n'){
                             at += 3;
+                            line += 1;
                         }else{
+                            line += (at[1] == '\n');
                             at += 2; // Skip the escaped character, whatever it is.
                         }
                     }else if(at[0] == '\''){
-- 
2.43.0


From be08c516d28d3c69a33b0bb83de1dff5ce0e4783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:04 +0000
Subject: [PATCH 033/157] fix: stringizing escaped single quotes, which changes
 the value when the string is stringized again

---
 src/preprocess.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index a526d40..ad9adbf 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -2183,9 +2183,7 @@ func struct token *expand_define(struct context *context, struct token *token_to
                             
                             smm size = 0;
                             for(smm i = 0; i < string.size; i++){
-                                if(string.data[i] == '\''){
-                                    size += 2;
-                                }else if(string.data[i] == '"'){
+                                if(string.data[i] == '"'){
                                     size += 2;
                                 }else if(string.data[i] == '\\'){
                                     size += 2;
@@ -2198,10 +2196,7 @@ func struct token *expand_define(struct context *context, struct token *token_to
                             
                             smm at = 0;
                             for(smm i = 0; i < string.size; i++){
-                                if(string.data[i] == '\''){
-                                    data[at++] = '\\';
-                                    data[at++] = '\'';
-                                }else if(string.data[i] == '"'){
+                                if(string.data[i] == '"'){
                                     data[at++] = '\\';
                                     data[at++] = '"';
                                 }else if(string.data[i] == '\\'){
-- 
2.43.0


From 43db4db9fcef7f09357232399f0351eff4f9bbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:25 +0000
Subject: [PATCH 034/157] fix: division by zero in the operand of '?:' which is
 not evaluated was an error in '#if'

---
 src/preprocess.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index ad9adbf..35237ba 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -3352,8 +3352,13 @@ func s64 static_if_evaluate(struct context *context){
                     return 0;
                 }
                 
+                context->static_if_evaluate_should_skip_undefined_identifier = current->should_skip_undefined_identifier;
+                
                 static_if_stack_push(context, current->token, STATIC_IF_EVALUATE_ternary_condition, current->value, current->is_unsigned);
                 static_if_stack_push(context, binary_expression, STATIC_IF_EVALUATE_ternary_if_true, value, is_unsigned);
+                
+                // Only one of the operands is evaluated.
+                context->static_if_evaluate_should_skip_undefined_identifier |= (current->value != 0);
                 goto retry;
             }break;
             
@@ -3365,6 +3370,9 @@ func s64 static_if_evaluate(struct context *context){
                 
                 is_unsigned |= if_true->is_unsigned;
                 value = condition->value ? if_true->value : value;
+                
+                // Restore the old value of 'should_skip_undefined_identifier'.
+                context->static_if_evaluate_should_skip_undefined_identifier = condition->should_skip_undefined_identifier;
             }break;
             
             invalid_default_case();
@@ -3412,7 +3420,14 @@ func s64 static_if_evaluate(struct context *context){
             goto retry;
         }
         
-        case TOKEN_question_mark: static_if_stack_push(context, test, STATIC_IF_EVALUATE_ternary_condition, value, is_unsigned); goto retry;
+        case TOKEN_question_mark:{
+            static_if_stack_push(context, test, STATIC_IF_EVALUATE_ternary_condition, value, is_unsigned);
+            
+            // Only one of the operands is evaluated.
+            context->static_if_evaluate_should_skip_undefined_identifier |= (value == 0);
+            
+            goto retry;
+        }
         
         default: break;
     }
-- 
2.43.0


From 0540d82fd40fb3325e0bda6e9105345b69c01df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:43 +0000
Subject: [PATCH 035/157] fix: the low surrogate of characters above 0xffff in
 utf-16 literals

---
 src/preprocess.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index 35237ba..92b0a50 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -794,7 +794,7 @@ struct string escape_and_convert_string_array(struct context *context, struct to
                             
                             // first the high bits, then the low bits
                             handle_escaping_out(0xD800 | ((codepoint >> 10) & 0b1111111111));
-                            handle_escaping_out(0xDD00 | ((codepoint >>  0) & 0b1111111111));
+                            handle_escaping_out(0xDC00 | ((codepoint >>  0) & 0b1111111111));
                         }
                         continue;
                     }
@@ -830,7 +830,7 @@ struct string escape_and_convert_string_array(struct context *context, struct to
                             
                             // first the high bits, then the low bits
                             handle_escaping_out(0xD800 | ((codepoint >> 10) & 0b1111111111));
-                            handle_escaping_out(0xDD00 | ((codepoint >>  0) & 0b1111111111));
+                            handle_escaping_out(0xDC00 | ((codepoint >>  0) & 0b1111111111));
                         }
                     }else{
                         // Allow the user to specify invalid utf-16 through escapes!
-- 
2.43.0


From 24fbb8139f45e20fcb0fefdf3d5fa49887741919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 036/157] fix: associations after the selected one overwrote
 the expression of a _Generic selection

---
 src/parse.c | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index b911e62..fd187eb 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -5079,6 +5079,7 @@ case NUMBER_KIND_##type:{ \
             
             struct expr default_expression = zero_struct;
             struct expr choosen_expression = zero_struct;
+            u8 *default_start = null;
             
             while(in_current_token_array(context) && !peek_token_eat(context, TOKEN_closed_paren)){
                 
@@ -5088,7 +5089,16 @@ case NUMBER_KIND_##type:{ \
                 if(peek_token_eat(context, TOKEN_default)){
                     expect_token(context, TOKEN_colon, "Expected ':' after 'default' while parsing a _Generic association list.");
                     
-                    default_expression = parse_expression(context, /*skip_comma_expression*/1);
+                    u8 *expression_start = arena_current(&context->ir_arena);
+                    struct expr expression = parse_expression(context, /*skip_comma_expression*/1);
+                    
+                    if(choosen_expression.ir){
+                        memset(expression_start, 0, context->ir_arena.current - expression_start);
+                        context->ir_arena.current = expression_start;
+                    }else{
+                        default_expression = expression;
+                        default_start = expression_start;
+                    }
                 }else{
                     struct type_info_return type_name = maybe_parse_type_for_cast_or_sizeof(context);
                     if(!type_name.type){
@@ -5099,13 +5109,31 @@ case NUMBER_KIND_##type:{ \
                     
                     expect_token(context, TOKEN_colon, "Expected ':' after the type-name while parsing a _Generic association list.");
                     
+                    u8 *expression_start = arena_current(&context->ir_arena);
                     struct expr expression = parse_expression(context, /*skip_comma_expression*/1);
                     
-                    if(types_are_equal(type_name.type, choice)){
+                    if(!choosen_expression.ir && types_are_equal(type_name.type, choice)){
                         choosen_expression = expression;
+                        
+                        if(default_expression.ir && !context->should_exit_statement){
+                            // 
+                            // The default expression is not used, delete it from in front of the choosen one.
+                            // 
+                            smm expression_size = context->ir_arena.current - expression_start;
+                            smm default_size    = expression_start - default_start;
+                            
+                            memmove(default_start, expression_start, expression_size);
+                            memset(default_start + expression_size, 0, default_size);
+                            
+                            context->ir_arena.current = default_start + expression_size;
+                            choosen_expression.ir = (struct ir *)((u8 *)choosen_expression.ir - default_size);
+                        }
                     }else{
-                        memset(ir_arena_start, 0, context->ir_arena.current - ir_arena_start);
-                        context->ir_arena.current = ir_arena_start;
+                        // 
+                        // This one is not used, delete it, but keep the ones in front of it.
+                        // 
+                        memset(expression_start, 0, context->ir_arena.current - expression_start);
+                        context->ir_arena.current = expression_start;
                     }
                 }
             }
-- 
2.43.0


From 97e57d024a37af55a4e311612d13305d10805a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:32 +0000
Subject: [PATCH 037/157] fix: a tentative definition resolves the type of an
 earlier extern declaration

---
 src/main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.c b/src/main.c
index fdcde01..90d0dc7 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1801,6 +1801,7 @@ func void parser_register_declaration_in_scope(struct context *context, struct a
 }
 
 func struct ast_type *types_are_equal(struct ast_type *wanted, struct ast_type *given);
+func int maybe_resolve_unresolved_type(struct ast_type **in_out_type);
 
 func struct ast_declaration *register_declaration(struct context *context, struct ast_declaration *decl){
     if(context->should_sleep) return decl;
@@ -1937,6 +1938,9 @@ func struct ast_declaration *register_declaration(struct context *context, struc
                     // 
                     
                     if((redecl->flags & DECLARATION_FLAGS_is_extern) && !(decl->flags & DECLARATION_FLAGS_is_extern)){
+                        // 'extern' declarations are allowed to have unresolved type, definitions are not.
+                        maybe_resolve_unresolved_type(&redecl->type);
+                        
                         redecl->flags &= ~DECLARATION_FLAGS_is_extern;
                     }
                     
-- 
2.43.0


From cf96562abb14baadab4a18086fcefe431df35286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:19 +0000
Subject: [PATCH 038/157] fix: a _Static_assert at file scope which refers to a
 later declaration was skipped

---
 src/main.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/main.c b/src/main.c
index 90d0dc7..176009f 100644
--- a/src/main.c
+++ b/src/main.c
@@ -3258,14 +3258,17 @@ func void worker_parse_global_scope_entry(struct context *context, struct work_q
         return;
     }
     
-    if(peek_token(context, TOKEN_static_assert)){
+    struct declaration_list declaration_list = zero_struct;
+    
+    b32 is_static_assert = peek_token(context, TOKEN_static_assert) != null;
+    if(is_static_assert){
         struct token *static_assert_token = next_token(context);
-        parse_static_assert(context, static_assert_token); // @cleanup: static_assert and sleeping.
+        parse_static_assert(context, static_assert_token);
         expect_token(context, TOKEN_semicolon, "Expected a ';' after _Static_assert.");
-        return;
+    }else{
+        declaration_list = parse_declaration_list(context, null, null);
     }
     
-    struct declaration_list declaration_list = parse_declaration_list(context, null, null);
     if(context->error) return;
     if(context->should_sleep){
         struct token *sleep_on = context->sleep_on;
@@ -3286,6 +3289,8 @@ func void worker_parse_global_scope_entry(struct context *context, struct work_q
         return;
     }
     
+    if(is_static_assert) return;
+    
     // might not be the full type e.g. int (*a)
     struct ast_type *lhs_type = declaration_list.type_specifier;
     
-- 
2.43.0


From f294b66dbee8896ee2b99b7359dbb98558b3a4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:09 +0000
Subject: [PATCH 039/157] fix: redeclaring an array of unknown size while
 another thread fills in its size was an error

---
 src/parse.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index fd187eb..ad547a5 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -1027,7 +1027,12 @@ func struct ast_type *types_are_equal(struct ast_type *wanted, struct ast_type *
         struct ast_array_type *wanted_array = (struct ast_array_type *)wanted;
         struct ast_array_type *given_array  = (struct ast_array_type *)given;
         
-        if(wanted_array->amount_of_elements != given_array->amount_of_elements) return null;
+        // 
+        // An array of unknown size is compatible with any size.
+        // @note: This also happens, if another thread fills in the size of a declaration while we are redeclaring it.
+        // 
+        b32 sizes_are_known = !wanted_array->is_of_unknown_size && !given_array->is_of_unknown_size;
+        if(sizes_are_known && wanted_array->amount_of_elements != given_array->amount_of_elements) return null;
         
         if(!types_are_equal(wanted_array->element_type, given_array->element_type)){
             return null;
-- 
2.43.0


From 1eb6114f2efaed88b0fdf2cc0a0eac7352343b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 040/157] fix: wake up sleepers on the size of an array only
 once its definition is registered

---
 src/parse.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index ad547a5..6967ff2 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -2824,13 +2824,6 @@ func void parse_initializer(struct context *context, struct ast_declaration *dec
             
             // Reset the trailing array size, to not overallocate later on.
             compound_literal->trailing_array_size = 0;
-            
-            if(decl->flags & DECLARATION_FLAGS_is_global){
-                struct sleeper_table *sleeper_table = &globals.declaration_sleeper_table;
-                if(decl->flags & DECLARATION_FLAGS_is_static) sleeper_table = &decl->compilation_unit->static_sleeper_table;
-                
-                wake_up_sleepers(sleeper_table, decl->identifier, SLEEP_on_array_size);
-            }
         }
         
     }else{
@@ -2963,7 +2956,18 @@ func void parse_initializer(struct context *context, struct ast_declaration *dec
         if(context->should_exit_statement) return;
         
         // If we are at global scope, submit that this is actually a definition.
-        parser_register_definition(context, decl, initializer_start, equals, type);
+        b32 size_was_unknown = type_is_array_of_unknown_size(decl->type);
+        
+        if(parser_register_definition(context, decl, initializer_start, equals, type) && size_was_unknown && !type_is_array_of_unknown_size(type)){
+            // 
+            // Only wake up the sleepers once the size is visible to them. If the initializer was not completed 
+            // (because of an error or because it has to sleep), they have to stay asleep.
+            // 
+            struct sleeper_table *sleeper_table = &globals.declaration_sleeper_table;
+            if(decl->flags & DECLARATION_FLAGS_is_static) sleeper_table = &decl->compilation_unit->static_sleeper_table;
+            
+            wake_up_sleepers(sleeper_table, decl->identifier, SLEEP_on_array_size);
+        }
     }else{
         // If we are at local scope, we control this declaration, thus we can just plug in
         // its expression and type slot.
-- 
2.43.0


From f1f9a8df093353f6787ae20f3b9efd7abdefd217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:04 +0000
Subject: [PATCH 041/157] fix: a file which includes itself without end is an
 error instead of never terminating

---
 src/preprocess.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index 92b0a50..ae7de0f 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -3442,7 +3442,9 @@ func s64 static_if_evaluate(struct context *context){
 
 //_____________________________________________________________________________________________________________________
 
-func void maybe_push_file_to_include_stack(struct context *context, struct file *file){
+#define MAX_INCLUDE_DEPTH 1024
+
+func void maybe_push_file_to_include_stack(struct context *context, struct token *directive, struct file *file){
     
     //
     // Check if we are one of the files that contained a '#pragma once' in this compilation unit,
@@ -3458,6 +3460,14 @@ func void maybe_push_file_to_include_stack(struct context *context, struct file
     }
     
     if(!skip_include){
+        // 
+        // A file which (indirectly) includes itself without a condition would otherwise never terminate.
+        // 
+        if(context->token_stack.size >= MAX_INCLUDE_DEPTH){
+            report_error(context, directive, "Includes nest too deep.");
+            return;
+        }
+        
         if(globals.cli_options.show_includes){
             print("Note: including file: %s\n", file->absolute_file_path);
         }
@@ -3648,7 +3658,8 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                             goto end;
                         }
                         
-                        maybe_push_file_to_include_stack(context, file);
+                        maybe_push_file_to_include_stack(context, postponed_directive.directive, file);
+                        if(context->should_exit_statement) goto end;
                     }else{
                         static_if_stack.first->is_true = static_if_evaluate(context) != 0;
                         if(context->should_exit_statement) goto end;
@@ -4495,7 +4506,8 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                                 goto end;
                             }
                             
-                            maybe_push_file_to_include_stack(context, file);
+                            maybe_push_file_to_include_stack(context, directive, file);
+                            if(context->should_exit_statement) goto end;
                             
                             continue;
                         }else{
@@ -4526,7 +4538,8 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                             goto end;
                         }
                         
-                        maybe_push_file_to_include_stack(context, next_include);
+                        maybe_push_file_to_include_stack(context, directive, next_include);
+                        if(context->should_exit_statement) goto end;
                     }else if(directive_kind == DIRECTIVE_embed){
                         assert(!have_postponed_directive); // @paranoid
                         
-- 
2.43.0


From 04bbfba7fe6a95c4de1b87c3f2c71dd7460d9904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:56 +0000
Subject: [PATCH 042/157] fix: deeply nested expressions and initializers are
 an error instead of an assertion or a stack overflow

---
 src/parse.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 6967ff2..9e792ad 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -2107,6 +2107,8 @@ func int type_can_be_initialized_by_string_literal(struct ast_type *type, struct
 
 func void parse_initializer_list(struct context *context, struct ast_type *type_to_initialize, u64 base_offset, smm *out_trailing_initializer_size){
     
+    if(maybe_report_error_for_stack_exhaustion(context, "Initializer nests too deep.")) return;
+    
     struct token *initial_open_curly = next_token(context);
     assert(initial_open_curly->type == TOKEN_open_curly);
     
@@ -4285,10 +4287,12 @@ func struct expr parse_expression(struct context *context, b32 should_skip_comma
     smm ast_stack_before = context->ast_stack_at;
     b32 did_push = false;
     if(ast_stack_before){ // we only have to push if we are not the first thing
-        if(context->ast_stack_at < array_count(context->ast_stack)){
-            ast_stack_push(context, AST_invalid, &globals.invalid_token, null);
-            did_push = true; // @cleanup: this could probably be simplified.
-        }
+        b32 stack_is_full = context->ast_stack_at == array_count(context->ast_stack);
+        
+        ast_stack_push(context, AST_invalid, &globals.invalid_token, null);
+        if(stack_is_full) return invalid_ast(context); // 'ast_stack_push' reported an error.
+        
+        did_push = true; // @cleanup: this could probably be simplified.
     }
     
     restart:;
-- 
2.43.0


From ecac7b2fb9afa06c8d0f3cc7afb72ce96f91cf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:27 +0000
Subject: [PATCH 043/157] fix: report macro expansions which nest too deep and
 give the generated format string of printlike calls a type

---
 src/parse.c      | 8 ++++++++
 src/preprocess.c | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index 9e792ad..a4ff48b 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -3530,6 +3530,14 @@ static void parse_call_to_printlike_function_arguments(struct context *context,
         string_list_postfix(&pretty_print_list, &context->scratch, string("\n"));
         
         format_string_literal->value = string_list_flatten(pretty_print_list, context->arena);
+        
+        struct ast_array_type *format_string_type = parser_type_push(context, array_type);
+        format_string_type->element_type       = &globals.typedef_s8;
+        format_string_type->amount_of_elements = format_string_literal->value.size + 1; // plus one for the zero_terminator
+        format_string_type->base.size          = format_string_type->amount_of_elements;
+        format_string_type->base.alignment     = globals.typedef_s8.alignment;
+        
+        format_string_literal->type = &format_string_type->base;
         return;
     }
     
diff --git a/src/preprocess.c b/src/preprocess.c
index ae7de0f..cdd6cbe 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -1857,6 +1857,14 @@ func b32 eat_whitespace_comments_and_newlines(struct context *context){
 
 func struct token *expand_define(struct context *context, struct token *token_to_expand, struct define_node *define, struct token *macro_expansion_site){
     
+    // 
+    // The arguments of function-like macros are expanded recursively.
+    // 
+    if((context->low_stack_address - &(u8){0}) > MAX_STACK_USAGE){
+        tokenizer_report_error(context, token_to_expand, macro_expansion_site, "Macro expansion nests too deep.");
+        return null;
+    }
+    
     if(define->is_builtin){
         
         switch(define->builtin_define_type){
-- 
2.43.0


From f7cc5eed50262fb2e2d66da7cecb562f1d1edf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:10 +0000
Subject: [PATCH 044/157] fix: reject invalid '#pragma pack' alignments and asm
 operands instead of crashing

---
 src/emit_x64.c        | 4 ++--
 src/parse.c           | 5 +++++
 src/parse_asm_block.c | 1 +
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index 276d9ce..0be618d 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -2518,8 +2518,8 @@ func struct emit_location *emit_call_to_inline_asm_function(struct context *cont
         ret->inline_asm__was_used_by_user = false;
         
         struct ast_type *return_type = function_type->return_type;
-        if(return_type->kind == AST_float_type){
-            // we allow 'return xmm0' for floats, therefor we have to fix up the size here.
+        if(get_register_kind_for_type(return_type) == REGISTER_KIND_xmm){
+            // we allow 'return xmm0' for floats (and a float for '__m128'), therefor we have to fix up the size here.
             assert(ret->register_kind == REGISTER_KIND_xmm);
             ret->size = return_type->size;
         }
diff --git a/src/parse.c b/src/parse.c
index a4ff48b..764bbd5 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -1545,6 +1545,11 @@ void parse_and_process_pragma_pack(struct context *context){
                     parsed_integer = parse_binary_literal(context, token);
                 }
                 
+                if(parsed_integer.value != 1 && parsed_integer.value != 2 && parsed_integer.value != 4 && parsed_integer.value != 8 && parsed_integer.value != 16){
+                    report_error(context, token, "The alignment of '#pragma pack' must be 1, 2, 4, 8 or 16.");
+                    return;
+                }
+                
                 have_value = 1;
                 value = parsed_integer.value;
             }break;
diff --git a/src/parse_asm_block.c b/src/parse_asm_block.c
index 5dcb769..2576728 100644
--- a/src/parse_asm_block.c
+++ b/src/parse_asm_block.c
@@ -1427,6 +1427,7 @@ func struct asm_operand asm_maybe_parse_expression_operand(struct context *conte
     
     if(!expression_okay){
         report_error(context, expr.token, "Currently, only expressions of the form 'a.b.c' or 'array[<const>]' are allowed as inline asm operands.");
+        return (struct asm_operand)zero_struct;
     }
     
     struct ast_type *type = expr.resolved_type;
-- 
2.43.0


From 725f23f4b5fb312cdaeb6d98b305ccb72f2f977f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:10 +0000
Subject: [PATCH 045/157] fix: thread local variables inside of a function need
 static storage

---
 src/parse.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index 764bbd5..679f5c3 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -9107,6 +9107,11 @@ func struct declaration_list parse_declaration_list(struct context *context, str
                 goto end;
             }
             
+            if(context->current_scope && (specifiers.specifier_flags & SPECIFIER_thread_local) && !(specifiers.specifier_flags & (SPECIFIER_extern | SPECIFIER_static))){
+                report_error(context, declarator.ident, "Thread local variables inside of a function must be declared 'static' or 'extern'.");
+                goto end;
+            }
+            
             decl = push_declaration_for_declarator(context, declarator);
             if(specifiers.specifier_flags & SPECIFIER_typedef) decl->kind = IR_typedef;
             
-- 
2.43.0


From df00ed0de5e8df0ec73c82f79db1413e3a70eb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:47 +0000
Subject: [PATCH 046/157] fix: code points which are not encodable in utf-16
 are an error instead of an assertion

---
 src/preprocess.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index cdd6cbe..0813984 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -781,9 +781,10 @@ struct string escape_and_convert_string_array(struct context *context, struct to
                     if(to_escape.data[0] != '\\'){
                         u32 codepoint = utf8_read_codepoint(context, token, &to_escape);
                         
-                        if(0xD800 <= codepoint && codepoint < 0xE000){
+                        if((0xD800 <= codepoint && codepoint < 0xE000) || codepoint > 0x10ffff){
                             // invalid unicode range for utf-16... Its fine, noone will ever see this message
                             report_error(context, token, "This contains codepoint 0x%x, which is not encodable in utf-16.", codepoint);
+                            codepoint = 0xfffd;
                         }
                         
                         if(codepoint < 0x10000){
@@ -817,9 +818,10 @@ struct string escape_and_convert_string_array(struct context *context, struct to
                         // @cleanup: copy and paste from above.
                         // 
                         
-                        if(0xD800 <= codepoint && codepoint < 0xE000){
+                        if((0xD800 <= codepoint && codepoint < 0xE000) || codepoint > 0x10ffff){
                             // invalid unicode range for utf-16... Its fine, noone will ever see this message
                             report_error(context, token, "This contains codepoint 0x%x, which is not encodable in utf-16.", codepoint);
+                            codepoint = 0xfffd;
                         }
                         
                         if(codepoint < 0x10000){
-- 
2.43.0


From ed866c38cfea9763d08878023bae00ed91f92d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:11 +0000
Subject: [PATCH 047/157] fix: reject a thread count of zero instead of
 emitting nothing

---
 src/main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.c b/src/main.c
index 176009f..40986aa 100644
--- a/src/main.c
+++ b/src/main.c
@@ -4868,6 +4868,10 @@ globals.typedef_##postfix = (struct ast_type){
     
     if(globals.cli_options.thread_count_specified){
         thread_count = globals.cli_options.thread_count;
+        if(thread_count <= 0){
+            print("Error: /thread_count option specifies an invalid thread count %llu.\n", globals.cli_options.thread_count);
+            return 1;
+        }
         if(thread_count > 10 * system_info.dwNumberOfProcessors){
             print("Error: /thread_count option specifies a thread count of more than 10 times the number of processors on the system.\n");
             return 1;
-- 
2.43.0


From 7a332e24c0b506ccd92a86c4363d9b11462abb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:34 +0000
Subject: [PATCH 048/157] fix: malformed libraries and cyclic alternate names
 are reported instead of crashing or never terminating

---
 src/ar.c      |  4 ++--
 src/explain.c | 36 ++++++++++++++++++++++++++++++------
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/ar.c b/src/ar.c
index cf444fd..75f85a3 100644
--- a/src/ar.c
+++ b/src/ar.c
@@ -131,7 +131,7 @@ int ar_parse_file(struct string file_name, struct memory_arena *arena){
     }
     
     if(!little_endian_symbol_index_base){
-        print("Error: Failed to parse library '%s', currently only Windows-style import libraries are supported.\n", file_name);
+        print("Error: Failed to parse library '%s', currently only Windows-style import libraries are supported.\n", (char *)file_name.data);
         return 1;
     }
     
@@ -363,7 +363,7 @@ struct ar_symbol_lookup{
     struct string file_size_string = string_strip_whitespace((struct string){.data = file_header->file_size_in_bytes, .size = sizeof(file_header->file_size_in_bytes)});
     int parse_size_success = 1;
     u64 file_size = string_to_u64(file_size_string, &parse_size_success);
-    if(!parse_size_success || file_size > file.size || member_offset + file_size > file.size){
+    if(!parse_size_success || file_size > file.size || member_offset + sizeof(struct ar_file_header) + file_size > file.size){
         print("Warning: A parse error occurred while looking up '%.*s' in library '%.*s'.\n", identifier.size, identifier.data, library_node->path.size, library_node->path.data);
         return ret;
     }
diff --git a/src/explain.c b/src/explain.c
index d563eaa..dbf1f35 100644
--- a/src/explain.c
+++ b/src/explain.c
@@ -271,10 +271,18 @@ struct coff_symbol {
 
 int try_to_extract_simple_declaration_from_object_file(struct coff_file_header *coff_file_header, u64 coff_file_size, struct ast_declaration *declaration){
     
-    (void)coff_file_size; // @cleanup: Check any offsets.
-    
     struct coff_section_header *section_headers = (void *)(coff_file_header + 1);
     
+    // 
+    // Make sure that the section headers and the symbol table are contained in the object file.
+    // The string table extends (at most) to the end of the file.
+    // 
+    u64 section_headers_end = (u64)sizeof(*coff_file_header) + (u64)coff_file_header->number_of_sections * sizeof(*section_headers);
+    u64 string_table_offset = (u64)coff_file_header->pointer_to_symbol_table + (u64)coff_file_header->number_of_symbols * 18;
+    if(coff_file_header->size_of_optional_header != 0 || section_headers_end > coff_file_size || string_table_offset > coff_file_size) return 0;
+    
+    u64 string_table_size = coff_file_size - string_table_offset;
+    
     struct string identifier = declaration->identifier->string;
     
     char *string_table = (char*)coff_file_header + coff_file_header->pointer_to_symbol_table + coff_file_header->number_of_symbols * 18;
@@ -286,7 +294,13 @@ int try_to_extract_simple_declaration_from_object_file(struct coff_file_header *
         
         struct string symbol_name;
         if(symbol->long_name.zeroes == 0){
-            symbol_name = string_from_cstring(string_table + symbol->long_name.offset);
+            char *long_name = string_table + symbol->long_name.offset;
+            
+            u64 long_name_size = 0, long_name_max = (symbol->long_name.offset < string_table_size) ? (string_table_size - symbol->long_name.offset) : 0;
+            while(long_name_size < long_name_max && long_name[long_name_size]) long_name_size++;
+            if(long_name_size == long_name_max) return 0;
+            
+            symbol_name = create_string((u8 *)long_name, long_name_size);
         }else{
             if(symbol->short_name[7] == 0){
                 symbol_name = string_from_cstring(symbol->short_name);
@@ -296,8 +310,14 @@ int try_to_extract_simple_declaration_from_object_file(struct coff_file_header *
         }
         
         if(string_match(symbol_name, identifier)){
-            // We found the symbol, get the corresponding section. @cleanup: check in bounds and non-zero.
+            // We found the symbol, get the corresponding section.
+            if(symbol->section_number == 0 || symbol->section_number > coff_file_header->number_of_sections) continue;
+            
             struct coff_section_header *section = &section_headers[symbol->section_number-/*one-based*/1];
+            
+            // The initializer of an uninitialized section is not contained in the file.
+            if(section->pointer_to_raw_data == 0 || (u64)section->pointer_to_raw_data + section->size_of_raw_data > coff_file_size) continue;
+            
             if((section->number_of_relocations == 0) && (section->size_of_raw_data == declaration->type->size)){
                 // @cleanup: check that the section characteristics match what we expect (data or function).
                 declaration->memory_location = (u8 *)coff_file_header + section->pointer_to_raw_data;
@@ -331,6 +351,10 @@ void lookup_declaration_in_libraries(struct context *context, struct ast_declara
     struct atom identifier = declaration->identifier->atom;
     
     
+    // Alternate names can be cyclic, every one of them is used at most once.
+    smm alternate_names_left = 0;
+    for(struct alternate_name *it = globals.alternate_names.first; it; it = it->next) alternate_names_left++;
+    
     while(true){
         for(struct library_node *library = globals.libraries.first; library; library = library->next){
             
@@ -354,12 +378,12 @@ void lookup_declaration_in_libraries(struct context *context, struct ast_declara
         if(!ar_import_header && !object_file_library_name.data){
             struct alternate_name *alternate_name = globals.alternate_names.first;
             for(; alternate_name; alternate_name = alternate_name->next){
-                if(atoms_match(alternate_name->source, identifier)){ // @cleanup: Cycles?
+                if(atoms_match(alternate_name->source, identifier)){
                     identifier = alternate_name->destination;
                     break;
                 }
             }
-            if(alternate_name == null) break;  // @cleanup: In the below also report on alternate names being used.
+            if(alternate_name == null || alternate_names_left-- == 0) break;  // @cleanup: In the below also report on alternate names being used.
         }else{
             break;
         }
-- 
2.43.0


From 01982664698b37ab00407066cf0d1c4b1b4ca6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:12 +0000
Subject: [PATCH 049/157] fix: a file which failed to tokenize also fails every
 other compilation unit including it

---
 src/main.c       |  1 +
 src/preprocess.c | 10 ++++++++++
 2 files changed, 11 insertions(+)

diff --git a/src/main.c b/src/main.c
index 40986aa..b0c45e2 100644
--- a/src/main.c
+++ b/src/main.c
@@ -257,6 +257,7 @@ struct file{
     int is_system_include;
     
     int in_progress;
+    int had_error; // The file could not be loaded or tokenized, this was reported by whoever loaded it.
     
     smm lines;
     smm amount_of_times_included; // not counting pragma(once)
diff --git a/src/preprocess.c b/src/preprocess.c
index 0813984..c534514 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -2785,6 +2785,7 @@ func struct file *load_or_get_source_file_by_absolute_path(struct context *conte
     file->tokens = tokenize_raw(context, file_contents, file->file_index, /* is_stupid_hack */ false, &file->lines);
     
     end:
+    file->had_error = context->error;
     atomic_store(int, file->in_progress, false);
     
     return file;
@@ -3470,6 +3471,14 @@ func void maybe_push_file_to_include_stack(struct context *context, struct token
     }
     
     if(!skip_include){
+        
+        if(file->had_error){
+            // The error was already reported, but maybe for another compilation unit.
+            context->error = true;
+            maybe_set_should_exit_statement(context);
+            return;
+        }
+        
         // 
         // A file which (indirectly) includes itself without a condition would otherwise never terminate.
         // 
@@ -3517,6 +3526,7 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
         context->current_compilation_unit->main_file = main_file;
         
         struct token_array array = main_file->tokens;
+        if(main_file->had_error) context->error = true;
         if(context->error || array.size == 0) return (struct token_array)zero_struct;
         
         // 
-- 
2.43.0


From 8e2c9644c4d0211fe05cd1d6dbf56037efd561a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:12 +0000
Subject: [PATCH 050/157] fix: an error limit of zero is not an assertion

---
 src/diagnostic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diagnostic.c b/src/diagnostic.c
index 9227602..8fbe8f9 100644
--- a/src/diagnostic.c
+++ b/src/diagnostic.c
@@ -448,7 +448,7 @@ void print_warning_or_error_reports(struct context *context){
                 }
             }
         }
-        assert(error_reported);
+        assert(error_reported || globals.cli_options.error_limit == 0);
     }else{
         //
         // If there was no error, all should be warnings, report them!
-- 
2.43.0


From 0948a831b8726d12969293464085eef83fc123b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:12 +0000
Subject: [PATCH 051/157] fix: an expression exited because it has to sleep is
 not an assertion

---
 src/parse.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 679f5c3..dda5086 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -7724,11 +7724,11 @@ case NUMBER_KIND_##type:{ \
     // Remove the artificial invalid ast we put on in the beginning.
     if(did_push){
         struct ast_stack_entry *guard_ast = ast_stack_pop(context);
-        assert(context->error || guard_ast->ast_kind == AST_invalid);
+        assert(context->error || context->should_exit_statement || guard_ast->ast_kind == AST_invalid);
     }
     
     // @note: This should never fire as we want to return early if there is an error deeper in the stack.
-    assert(context->error || ast_stack_before == context->ast_stack_at);
+    assert(context->error || context->should_exit_statement || ast_stack_before == context->ast_stack_at);
     
     return operand;
 }
-- 
2.43.0


From bf405718ee2075f4e02f6163d02aad9c0675c0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:01 +0000
Subject: [PATCH 052/157] fix: a statement may start with _Thread_local or
 _Noreturn

---
 src/parse.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index dda5086..7852091 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -9850,7 +9850,8 @@ func void parse_statement(struct context *context){
             push_ir(context, IR_pop_expression);
         }break;
         
-        // @cleanup: noreturn, inline, ?
+        // @cleanup: inline, ?
+        case TOKEN_thread_local: case TOKEN_noreturn:
         case TOKEN_alignas: case TOKEN_atomic: 
         case TOKEN_declspec:
         case TOKEN_unaligned: case TOKEN_restrict:
-- 
2.43.0


From 711f0e5146c4b31240f318267093974801116bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:01 +0000
Subject: [PATCH 053/157] fix: the strictest alignment of all declarations of
 an object was not used

---
 src/main.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main.c b/src/main.c
index b0c45e2..89e72d1 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1949,6 +1949,13 @@ func struct ast_declaration *register_declaration(struct context *context, struc
                         redecl->flags |= DECLARATION_FLAGS_is_static;
                     }
                     
+                    // The strictest alignment of all declarations is used.
+                    for(s64 alignment = redecl->overwrite_alignment; decl->overwrite_alignment > alignment;){
+                        s64 previous_alignment = (s64)atomic_compare_and_swap(&redecl->overwrite_alignment, (void *)decl->overwrite_alignment, (void *)alignment);
+                        if(previous_alignment == alignment) break;
+                        alignment = previous_alignment;
+                    }
+                    
                     assert(!decl->assign_expr);
                     return redecl;
                 }else{
-- 
2.43.0


From 808a0aab35b4f208146f1d1857ecc15ec91535e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:38 +0000
Subject: [PATCH 054/157] fix: objects align common variables, data and thread
 locals relative to their section

---
 src/obj_writer.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index 1ec2f64..03f1cf0 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -1247,6 +1247,16 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
                     continue;
                 }
                 
+                // 
+                // A common symbol only has a size, the linker aligns it by that size.
+                // If this is not enough (or there is no size), the variable has to be defined in .bss.
+                // 
+                smm size = get_declaration_size(decl);
+                if(size == 0 || get_declaration_alignment(decl) > min_of(size, 16)){
+                    ast_list_append(&zero_initialized_statics, scratch, &decl->kind);
+                    continue;
+                }
+                
                 ast_list_append(&automatic_variables, scratch, &decl->kind);
                 
             }else if(*ast == IR_function){
@@ -1782,7 +1792,8 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
                 smm alignment = get_declaration_alignment(decl);
                 smm decl_size = get_declaration_size(decl);
                 
-                push_zero_align(arena, alignment); // @cleanup: This seems wrong... We want to align the offset from the base.
+                smm offset = arena_current(arena) - data_base;
+                push_data(arena, u8, align_up(offset, alignment) - offset);
                 
                 section_alignment = max_of(section_alignment, alignment);
                 
@@ -1823,7 +1834,8 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
             smm alignment = get_declaration_alignment(decl);
             smm decl_size = get_declaration_size(decl);
             
-            push_zero_align(arena, alignment); // @cleanup: This seems wrong... We want to align the offset from the base.
+            smm offset = arena_current(arena) - tls_base;
+            push_data(arena, u8, align_up(offset, alignment) - offset);
             
             section_alignment = max_of(section_alignment, alignment);
             
-- 
2.43.0


From 8f9fb5ffd291c37c989a62eb0330f3cf681bf337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:38 +0000
Subject: [PATCH 055/157] fix: objects which only use thread locals of other
 objects did not refer to _tls_index

---
 src/obj_writer.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index 03f1cf0..aaa8dde 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -1331,7 +1331,13 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
         }
     }
     
-    if(tls_variables.count){
+    b32 tls_index_is_referenced = tls_variables.count != 0;
+    for_ast_list(external_variables){
+        struct ast_declaration *decl = (struct ast_declaration *)it->value;
+        if(decl->flags & DECLARATION_FLAGS_is_thread_local) tls_index_is_referenced = true;
+    }
+    
+    if(tls_index_is_referenced){
         // If there were tls variables, the index was referenced.
         ast_list_append(&external_variables, scratch, &globals.tls_index_declaration->kind);
     }
-- 
2.43.0


From 67c9cee44389f08ae31cc55182c4101ac90fb91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:38 +0000
Subject: [PATCH 056/157] fix: thread local variables inside of functions were
 placed in .data; align initialized data and thread locals relative to their
 section

---
 src/coff_writer.c | 23 +++++++++++++++++------
 src/obj_writer.c  |  7 ++++++-
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/coff_writer.c b/src/coff_writer.c
index 263baa5..909f698 100644
--- a/src/coff_writer.c
+++ b/src/coff_writer.c
@@ -685,7 +685,9 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
                     
                     for_ast_list(function->static_variables){
                         struct ast_declaration *static_decl = (struct ast_declaration *)it->value;
-                        if(static_decl->assign_expr){
+                        if(static_decl->flags & DECLARATION_FLAGS_is_thread_local){
+                            ast_list_append(&tls_declarations, scratch, &static_decl->kind);
+                        }else if(static_decl->assign_expr){
                             ast_list_append(&initialized_declarations, scratch, &static_decl->kind);
                         }else{
                             ast_list_append(&uninitialized_declarations, scratch, &static_decl->kind);
@@ -713,7 +715,9 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
             
             for_ast_list(function->static_variables){
                 struct ast_declaration *decl = cast(struct ast_declaration *)it->value;
-                if(decl->assign_expr){
+                if(decl->flags & DECLARATION_FLAGS_is_thread_local){
+                    ast_list_append(&tls_declarations, scratch, &decl->kind);
+                }else if(decl->assign_expr){
                     ast_list_append(&initialized_declarations, scratch, &decl->kind);
                 }else{
                     ast_list_append(&uninitialized_declarations, scratch, &decl->kind);
@@ -1503,9 +1507,14 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
         if(tls_declarations.count){
             {
                 // Calculate the start of the tls section.
-                struct ast_declaration *first_tls_decl = (struct ast_declaration *)tls_declarations.first->value;
-                smm alignment = get_declaration_alignment(first_tls_decl);
-                push_align(arena, (u32)alignment); // @cleanup: why does push align take a u32?
+                // All declarations have to be aligned relative to it, as the loader copies it to aligned memory.
+                smm tls_alignment = 1;
+                for_ast_list(tls_declarations){
+                    struct ast_declaration *decl = cast(struct ast_declaration *)it->value;
+                    tls_alignment = max_of(tls_alignment, get_declaration_alignment(decl));
+                }
+                
+                push_zero_align(arena, tls_alignment);
                 tls_data_rva = make_relative_virtual_address(rdata_section_start, arena_current(arena));
             }
             
@@ -1576,7 +1585,9 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
             smm alignment = get_declaration_alignment(decl);
             smm decl_size = get_declaration_size(decl);
             
-            push_zero_align(arena, alignment);
+            // Align relative to the section, as it is not placed in memory the same way it is placed in the file.
+            smm offset = arena_current(arena) - data_section_start;
+            push_data(arena, u8, align_up(offset, alignment) - offset);
             
             assert(decl->memory_location);
             
diff --git a/src/obj_writer.c b/src/obj_writer.c
index aaa8dde..cd89482 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -1282,7 +1282,12 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
                     
                     // @cleanup: These should work different for selectany.
                     for_ast_list(function->static_variables){
-                        ast_list_append(&defined_variables, scratch, it->value);
+                        struct ast_declaration *static_decl = (struct ast_declaration *)it->value;
+                        if(static_decl->flags & DECLARATION_FLAGS_is_thread_local){
+                            ast_list_append(&tls_variables, scratch, it->value);
+                        }else{
+                            ast_list_append(&defined_variables, scratch, it->value);
+                        }
                     }
                     continue;
                 }
-- 
2.43.0


From d5eaf3ab74231f4d3dbc31cfde95c9cf04a9abc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:45 +0000
Subject: [PATCH 057/157] fix: unwind information of functions with more than
 512k of stack was misaligned

---
 src/obj_writer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index cd89482..1663cdb 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -943,7 +943,9 @@ func void *push_unwind_information_for_function(struct memory_arena *arena, stru
         
         stack_allocation_code->operation_code = /*UWOP_ALLOC_LARGE*/1;
         stack_allocation_code->operation_info = 1;
-        *push_struct(arena, u32) = (u32)stack_space_needed;
+        // @note: The unwind codes are only two-byte aligned.
+        *push_struct(arena, u16) = (u16)stack_space_needed;
+        *push_struct(arena, u16) = (u16)(stack_space_needed >> 16);
     }
     
     // @incomplete: Pushing r8-r15 needs 2 bytes each.
-- 
2.43.0


From c7402649286da88ceac37812f419d256d210ef01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:34 +0000
Subject: [PATCH 058/157] fix: objects placed the unwind symbols of a function
 after one with another number of unwind codes wrong

---
 src/obj_writer.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index 1663cdb..888e789 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -2508,10 +2508,16 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
             // 
             // Advance the offset to the next unwind info.
             // 
-            u8 *unwind_data = obj_base_address + xdata->pointer_to_raw_data;
+            u8 *unwind_data = obj_base_address + xdata->pointer_to_raw_data + unwind_info_offset;
             u8 count_of_codes = unwind_data[2];
             unwind_info_offset += 4 + (count_of_codes + (count_of_codes & 1)) * 2;
             
+            if(function->seh_exception_handler){
+                // Skip the exception handler, the scope table count and the entries of the scope table.
+                unwind_info_offset += 8;
+                for(struct seh_exception_handler *handler = function->seh_exception_handler; handler; handler = handler->next) unwind_info_offset += 16;
+            }
+            
             struct coff_symbol_table_record *pdata_record = (struct coff_symbol_table_record *)push_data(arena, u8, 18);
             
             struct string pdata_string = push_format_string(scratch, "$pdata$%.*s", name.size, name.data);
-- 
2.43.0


From 68b36daa3e362f346525d9718db2ea3b39c8fe39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:25 +0000
Subject: [PATCH 059/157] fix: exported data and functions of which another
 declaration was exported were not exported

---
 src/coff_writer.c | 43 +++++++++++++++++++++++++++++++------------
 src/main.c        | 23 ++++++++++++++++++++++-
 2 files changed, 53 insertions(+), 13 deletions(-)

diff --git a/src/coff_writer.c b/src/coff_writer.c
index 909f698..4a24bf3 100644
--- a/src/coff_writer.c
+++ b/src/coff_writer.c
@@ -650,6 +650,10 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
                         continue;
                     }
                     
+                    if(decl->flags & DECLARATION_FLAGS_is_dllexport){
+                        ast_list_append(&dllexports, scratch, ast);
+                    }
+                    
                     if(decl->assign_expr){
                         ast_list_append(&initialized_declarations, arena, ast);
                     }else{
@@ -1153,6 +1157,8 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
     
     u32 tls_data_rva = 0;
     
+    u32 *export_address_table = null; // Filled in once everything has a relative virtual address.
+    
     struct coff_section_header *rdata = null;
     {   //
         // Write out the '.rdata' section
@@ -1439,7 +1445,7 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
         }
         
         if(dllexports.count){
-            u32 *export_address_table = push_data(arena, u32, dllexports.count);
+            export_address_table = push_data(arena, u32, dllexports.count);
             u32 *name_pointer_table   = push_data(arena, u32, dllexports.count);
             u16 *ordinal_table        = push_data(arena, u16, dllexports.count);
             
@@ -1479,26 +1485,24 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
             image_optional_header->data_directory[0].rva  = make_relative_virtual_address(rdata_section_start, edata_start);
             image_optional_header->data_directory[0].size = to_u32(arena_current(arena) - edata_start);
             
-#define function_node_smaller(a, b) \
+#define declaration_node_smaller(a, b) \
             string_lexically_smaller( \
-                    ((struct ast_function *)a->value)->identifier->string, \
-                    ((struct ast_function *)b->value)->identifier->string)
+                    ((struct ast_declaration *)a->value)->identifier->string, \
+                    ((struct ast_declaration *)b->value)->identifier->string)
             
-            sll_sort(dllexports, scratch, function_node_smaller);
-#undef function_node_smaller
+            sll_sort(dllexports, scratch, declaration_node_smaller);
+#undef declaration_node_smaller
             
             // emit all the names
             
             u32 i = 0;
             for_ast_list(dllexports){
-                assert(*it->value == IR_function);
-                struct ast_function *function = cast(struct ast_function *)it->value;
-                assert(function->relative_virtual_address); // The function better be emitted!
+                struct ast_declaration *decl = cast(struct ast_declaration *)it->value;
                 
+                char *name = push_cstring_from_string(arena, decl->identifier->string);
+                name_pointer_table[i] = make_relative_virtual_address(rdata_section_start, name);
                 
-                char *function_name = push_cstring_from_string(arena, function->identifier->string);
-                name_pointer_table[i] = make_relative_virtual_address(rdata_section_start, function_name);
-                export_address_table[i] = to_u32(function->relative_virtual_address);
+                // @note: The addresses are filled in, once everything has a relative virtual address.
                 ordinal_table[i] = to_u16((smm)i);
                 i++;
             }
@@ -1609,6 +1613,21 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
     // From this point all functions and all declarations have their relative virtual address set.
     // thus we can patch now.
     
+    {
+        u32 export_index = 0;
+        for_ast_list(dllexports){
+            smm relative_virtual_address;
+            if(*it->value == IR_function){
+                relative_virtual_address = ((struct ast_function *)it->value)->relative_virtual_address;
+            }else{
+                relative_virtual_address = ((struct ast_declaration *)it->value)->relative_virtual_address;
+            }
+            
+            assert(relative_virtual_address); // The declaration better be emitted!
+            export_address_table[export_index++] = to_u32(relative_virtual_address);
+        }
+    }
+    
     struct relocation_node{
         struct relocation_node *next;
         smm offset_in_page;
diff --git a/src/main.c b/src/main.c
index 89e72d1..9ef05e8 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1998,7 +1998,7 @@ func struct ast_declaration *register_declaration(struct context *context, struc
                 }
                 
                 if(function->as_decl.flags & DECLARATION_FLAGS_is_dllexport){
-                    if(!(redecl_function->type->flags & DECLARATION_FLAGS_is_dllexport)){
+                    if(!(redecl_function->as_decl.flags & DECLARATION_FLAGS_is_dllexport)){
                         // only set this if it is not set, to not polute write cache.
                         redecl_function->as_decl.flags |= DECLARATION_FLAGS_is_dllexport;
                     }
@@ -5468,6 +5468,27 @@ globals.typedef_##postfix = (struct ast_type){
         globals.globally_referenced_declarations = entry_point_node;
     }
     
+    if(globals.output_file_type != OUTPUT_FILE_obj){
+        // 
+        // Everything that is defined and has an exported declaration is referenced by whoever loads this file.
+        // Any of its declarations might have been the one declared '__declspec(dllexport)'.
+        // 
+        
+        for(u32 table_index = 0; table_index < globals.global_declarations.capacity; table_index++){
+            enum ast_kind *ast = globals.global_declarations.nodes[table_index].ast;
+            if(!ast) continue;
+            
+            struct ast_declaration *decl = (struct ast_declaration *)ast;
+            if(!(decl->flags & DECLARATION_FLAGS_is_dllexport)) continue;
+            
+            int is_defined = 0;
+            if(*ast == IR_function)    is_defined = ((struct ast_function *)ast)->scope != null;
+            if(*ast == IR_declaration) is_defined = decl->assign_expr || !(decl->flags & DECLARATION_FLAGS_is_extern);
+            
+            if(is_defined) add_global_reference_for_declaration(arena, decl);
+        }
+    }
+    
     if(globals.output_file_type == OUTPUT_FILE_obj){
         // 
         // For an .obj any external function is a potential entry point.
-- 
2.43.0


From d003d5b0db5e9ff5417187e35458083aec366ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:25 +0000
Subject: [PATCH 060/157] fix: libraries with a padded symbol index were
 rejected

---
 src/ar.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ar.c b/src/ar.c
index 75f85a3..c1f82f3 100644
--- a/src/ar.c
+++ b/src/ar.c
@@ -190,7 +190,8 @@ int ar_parse_file(struct string file_name, struct memory_arena *arena){
     struct library_import_table_node *string_table = push_data(arena, struct library_import_table_node, 0);
     u64 amount_of_strings = 0;
     
-    for(u8 *it = string_buffer; it < (u8 *)symbol_index_end;){
+    // @note: There might be padding after the last string.
+    for(u8 *it = string_buffer; it < (u8 *)symbol_index_end && amount_of_strings < amount_of_symbols;){
         struct string string = cstring_to_string((char *)it);
         it += string.size + 1;
         
-- 
2.43.0


From 3c224d6d91785997bde5b9bbfef01fc12b85e7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:28 +0000
Subject: [PATCH 061/157] fix: addresses of implicitly imported functions in
 initializers pointed at the start of the image

---
 src/explain.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/explain.c b/src/explain.c
index dbf1f35..bdcfaf9 100644
--- a/src/explain.c
+++ b/src/explain.c
@@ -482,6 +482,9 @@ void lookup_declaration_in_libraries(struct context *context, struct ast_declara
         
         function->as_decl.flags |= DECLARATION_FLAGS_is_dllimport;
         function->dll_import_node = import_node;
+        
+        // The initializer of a global declaration might already have been evaluated without knowing about the dllimport.
+        function->as_decl.flags |= DECLARATION_FLAGS_need_dllimport_stub_function;
     }
 }
 
-- 
2.43.0


From a0e68ec3ada9782e49db41281ecedb507eed2aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:33 +0000
Subject: [PATCH 062/157] fix: /Wno<warning> without a separator was treated as
 /W no<warning>

---
 meta_programs/parse_cli.c | 27 +++++++++++----------
 src/cli.c                 | 50 +++++++++++++++++++--------------------
 2 files changed, 40 insertions(+), 37 deletions(-)

diff --git a/meta_programs/parse_cli.c b/meta_programs/parse_cli.c
index 7e7226a..3a80b86 100644
--- a/meta_programs/parse_cli.c
+++ b/meta_programs/parse_cli.c
@@ -1000,22 +1000,25 @@ int main(int argc, char *argv[]){
     {
         //
         // Generate all short-argument matches.
+        // The longer ones have to come first, otherwise '-Wno...' would be '-W no...'.
         //
         int first_short_argument = 1;
-        for(struct option *option = options; option; option = option->next){
-            if(option->option_argument_type == CLI_ARGUMENT_TYPE_none) continue;
+        for(u64 alias_size = 3; alias_size > 0; alias_size--){
+            for(struct option *option = options; option; option = option->next){
+                if(option->option_argument_type == CLI_ARGUMENT_TYPE_none) continue;
             
-            for(struct string_list_node *alias = option->option_aliases; alias; alias = alias->next){
-                if(alias->string.size > 3) continue;
-                char *else_string = "}else ";
-                if(first_short_argument){
-                    first_short_argument = 0;
-                    else_string = "";
-                }
+                for(struct string_list_node *alias = option->option_aliases; alias; alias = alias->next){
+                    if(alias->string.size != alias_size) continue;
+                    char *else_string = "}else ";
+                    if(first_short_argument){
+                        first_short_argument = 0;
+                        else_string = "";
+                    }
                 
-                print("            %sif(string_front_match_eat(&option, \"%.*s\")){\n", else_string, alias->string.size, alias->string.data);
-                print("                option_argument_type = %s;\n", option_argument_type_strings[option->option_argument_type]);
-                print("                option_kind          = CLI_OPTION_%.*s;\n", option->option_name.size, option->option_name.data);
+                    print("            %sif(string_front_match_eat(&option, \"%.*s\")){\n", else_string, alias->string.size, alias->string.data);
+                    print("                option_argument_type = %s;\n", option_argument_type_strings[option->option_argument_type]);
+                    print("                option_kind          = CLI_OPTION_%.*s;\n", option->option_name.size, option->option_name.data);
+                }
             }
         }
         print("            }\n");
diff --git a/src/cli.c b/src/cli.c
index b9d77ed..268192b 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -403,24 +403,39 @@ int cli_parse_options(struct cli_options *cli_options, struct memory_arena *aren
             // @note: Short options need to match case-sensatively.
             struct string option = string_from_cstring(option_cstring);
             
-            if(string_front_match_eat(&option, "h")){
-                option_argument_type = CLI_ARGUMENT_TYPE_option;
-                option_kind          = CLI_OPTION_help;
-            }else if(string_front_match_eat(&option, "?")){
-                option_argument_type = CLI_ARGUMENT_TYPE_option;
-                option_kind          = CLI_OPTION_help;
-            }else if(string_front_match_eat(&option, "out")){
-                option_argument_type = CLI_ARGUMENT_TYPE_string;
-                option_kind          = CLI_OPTION_out;
-            }else if(string_front_match_eat(&option, "o")){
+            if(string_front_match_eat(&option, "out")){
                 option_argument_type = CLI_ARGUMENT_TYPE_string;
                 option_kind          = CLI_OPTION_out;
+            }else if(string_front_match_eat(&option, "Wno")){
+                option_argument_type = CLI_ARGUMENT_TYPE_warning;
+                option_kind          = CLI_OPTION_Wno;
+            }else if(string_front_match_eat(&option, "std")){
+                option_argument_type = CLI_ARGUMENT_TYPE_enum;
+                option_kind          = CLI_OPTION_std;
             }else if(string_front_match_eat(&option, "Fe")){
                 option_argument_type = CLI_ARGUMENT_TYPE_string;
                 option_kind          = CLI_OPTION_out;
             }else if(string_front_match_eat(&option, "Fo")){
                 option_argument_type = CLI_ARGUMENT_TYPE_string;
                 option_kind          = CLI_OPTION_out;
+            }else if(string_front_match_eat(&option, "wd")){
+                option_argument_type = CLI_ARGUMENT_TYPE_warning;
+                option_kind          = CLI_OPTION_Wno;
+            }else if(string_front_match_eat(&option, "MF")){
+                option_argument_type = CLI_ARGUMENT_TYPE_string;
+                option_kind          = CLI_OPTION_MF;
+            }else if(string_front_match_eat(&option, "Fi")){
+                option_argument_type = CLI_ARGUMENT_TYPE_string;
+                option_kind          = CLI_OPTION_Fi;
+            }else if(string_front_match_eat(&option, "h")){
+                option_argument_type = CLI_ARGUMENT_TYPE_option;
+                option_kind          = CLI_OPTION_help;
+            }else if(string_front_match_eat(&option, "?")){
+                option_argument_type = CLI_ARGUMENT_TYPE_option;
+                option_kind          = CLI_OPTION_help;
+            }else if(string_front_match_eat(&option, "o")){
+                option_argument_type = CLI_ARGUMENT_TYPE_string;
+                option_kind          = CLI_OPTION_out;
             }else if(string_front_match_eat(&option, "I")){
                 option_argument_type = CLI_ARGUMENT_TYPE_directory_list;
                 option_kind          = CLI_OPTION_I;
@@ -430,24 +445,9 @@ int cli_parse_options(struct cli_options *cli_options, struct memory_arena *aren
             }else if(string_front_match_eat(&option, "W")){
                 option_argument_type = CLI_ARGUMENT_TYPE_warning;
                 option_kind          = CLI_OPTION_W;
-            }else if(string_front_match_eat(&option, "Wno")){
-                option_argument_type = CLI_ARGUMENT_TYPE_warning;
-                option_kind          = CLI_OPTION_Wno;
-            }else if(string_front_match_eat(&option, "wd")){
-                option_argument_type = CLI_ARGUMENT_TYPE_warning;
-                option_kind          = CLI_OPTION_Wno;
-            }else if(string_front_match_eat(&option, "MF")){
-                option_argument_type = CLI_ARGUMENT_TYPE_string;
-                option_kind          = CLI_OPTION_MF;
             }else if(string_front_match_eat(&option, "l")){
                 option_argument_type = CLI_ARGUMENT_TYPE_string_list;
                 option_kind          = CLI_OPTION_l;
-            }else if(string_front_match_eat(&option, "Fi")){
-                option_argument_type = CLI_ARGUMENT_TYPE_string;
-                option_kind          = CLI_OPTION_Fi;
-            }else if(string_front_match_eat(&option, "std")){
-                option_argument_type = CLI_ARGUMENT_TYPE_enum;
-                option_kind          = CLI_OPTION_std;
             }
             
             if(option_kind == CLI_OPTION_none){
-- 
2.43.0


From caaeeac01c571f5addff7133a811ec355947d84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:56 +0000
Subject: [PATCH 063/157] fix: /no_debug was ignored for objects

---
 src/obj_writer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index 888e789..18ccdba 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -1874,7 +1874,7 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
     }
     
     u32 defined_function_func_id_base = 0;
-    {
+    if(!globals.cli_options.no_debug){
         debug_types = section_headers + section_header_count++;
         
         push_zero_align(arena, 4);
@@ -2047,7 +2047,7 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
     // 
     struct debug_symbols_relocation_info *debug_symbols_relocations = push_data(scratch, struct debug_symbols_relocation_info, 0);
     
-    {
+    if(!globals.cli_options.no_debug){
         debug_symbols = section_headers + section_header_count++;
         
         push_zero_align(arena, 4);
-- 
2.43.0


From 58f9990e3ac432df4d04b1398f348f55ef84e22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:56 +0000
Subject: [PATCH 064/157] fix: /EP printed the command line in front of the
 preprocessed file

---
 src/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 9ef05e8..a872c71 100644
--- a/src/main.c
+++ b/src/main.c
@@ -3900,6 +3900,8 @@ int main(int argc, char *argv[]){
     int cli_parse_options_success = cli_parse_options(&globals.cli_options, arena, argc-1, argv+1);
     if(!cli_parse_options_success) return 1;
     
+    if(globals.cli_options.EP) globals.cli_options.quiet = 1;
+    
 #if PRINT_COMMAND_LINE
     if(!globals.cli_options.quiet){
         print("\n");
@@ -3920,8 +3922,6 @@ int main(int argc, char *argv[]){
         globals.cli_options.seed = __rdtsc(); // @cleanup: Maybe get some better "random" here?
     }
     
-    if(globals.cli_options.EP) globals.cli_options.quiet = 1;
-    
     // @cleanup: Warn when we compile to an .exe that none of these options are valid.
     if(globals.cli_options.MD + globals.cli_options.MDd + globals.cli_options.MT + globals.cli_options.MTd > 1){
         print("Error: More than one of the command line options /MD /MDd /MT /MTd are specified.\n");
-- 
2.43.0


From 1e3038e5d85dccae43c72e125525f1419af2a0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:26 +0000
Subject: [PATCH 065/157] fix: the compiler did not compile itself, as parse.c
 used memmove

---
 src/parse.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 7852091..6433ce7 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -5148,7 +5148,8 @@ case NUMBER_KIND_##type:{ \
                             smm expression_size = context->ir_arena.current - expression_start;
                             smm default_size    = expression_start - default_start;
                             
-                            memmove(default_start, expression_start, expression_size);
+                            // This moves towards the start, but the ranges may overlap.
+                            for(smm i = 0; i < expression_size; i++) default_start[i] = expression_start[i];
                             memset(default_start + expression_size, 0, default_size);
                             
                             context->ir_arena.current = default_start + expression_size;
-- 
2.43.0


From 27a1193c5a31c3ae920e66d8d294668e04f09ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:56 +0000
Subject: [PATCH 066/157] fix: command line arguments of main are only
 delimited by spaces and tabs

---
 implicit/pre_main_common.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/implicit/pre_main_common.c b/implicit/pre_main_common.c
index e46c12d..183610b 100644
--- a/implicit/pre_main_common.c
+++ b/implicit/pre_main_common.c
@@ -17,7 +17,7 @@ __declspec(dllimport) __declspec(noreturn) void ExitProcess(unsigned int uExitCo
 
 
 static int character_is_whitespace(char c){
-    return (c ==  '\v') || (c ==  '\t') || (c ==  '\f') || (c ==  ' ');
+    return (c ==  '\t') || (c ==  ' ');
 }
 
 // arguments:
@@ -130,7 +130,7 @@ static int windows_parse_command_line__internal(char *command_line, __int64 comm
 
 
 static int wchar_is_whitespace(wchar_t c){
-    return (c ==  '\v') || (c ==  '\t') || (c ==  '\f') || (c ==  ' ');
+    return (c ==  '\t') || (c ==  ' ');
 }
 
 
-- 
2.43.0


From 8ab4a175027d816550a9bbc67271822d2f6dfa4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:56 +0000
Subject: [PATCH 067/157] fix: the startup code split the program name by the
 rules for the other arguments

---
 implicit/pre_main_common.c | 44 ++++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/implicit/pre_main_common.c b/implicit/pre_main_common.c
index 183610b..83a78aa 100644
--- a/implicit/pre_main_common.c
+++ b/implicit/pre_main_common.c
@@ -54,9 +54,25 @@ static int windows_parse_command_line__internal(char *command_line, __int64 comm
     int in_quotes     = false;
     int in_argument   = false;
     
-    int amount_of_arguments = 0;
+    // 
+    // The program name: The quotes are removed, nothing else is special, not even a \ in front of a ".
+    // 
+    __int64 name_end = 0;
+    for(; name_end < command_line_size; name_end++){
+        if(command_line[name_end] == '"'){
+            in_quotes = !in_quotes;
+        }else if(!in_quotes && character_is_whitespace(command_line[name_end])){
+            break;
+        }else{
+            *at++ = command_line[name_end];
+        }
+    }
+    *at++ = 0;
+    in_quotes = false;
+    
+    int amount_of_arguments = 1;
     
-    for(__int64 i = 0; i < command_line_size; ){
+    for(__int64 i = name_end; i < command_line_size; ){
         // @note: accsessing command_line[i + 1] is save because of zero termination
         // assert(!in_quotes || in_argument);
         
@@ -123,7 +139,7 @@ static int windows_parse_command_line__internal(char *command_line, __int64 comm
             }
         }
     }
-    *at++ = 0; // zero terminate
+    if(in_argument) *at++ = 0; // zero terminate
     
     return amount_of_arguments;
 }
@@ -168,9 +184,25 @@ static int windows_parse_command_line__internal_wchar(wchar_t *command_line, __i
     int in_quotes     = false;
     int in_argument   = false;
     
-    int amount_of_arguments = 0;
+    // 
+    // The program name: The quotes are removed, nothing else is special, not even a \ in front of a ".
+    // 
+    __int64 name_end = 0;
+    for(; name_end < command_line_size; name_end++){
+        if(command_line[name_end] == '"'){
+            in_quotes = !in_quotes;
+        }else if(!in_quotes && wchar_is_whitespace(command_line[name_end])){
+            break;
+        }else{
+            *at++ = command_line[name_end];
+        }
+    }
+    *at++ = 0;
+    in_quotes = false;
+    
+    int amount_of_arguments = 1;
     
-    for(__int64 i = 0; i < command_line_size; ){
+    for(__int64 i = name_end; i < command_line_size; ){
         // @note: accsessing command_line[i + 1] is save because of zero termination
         // assert(!in_quotes || in_argument);
         
@@ -237,7 +269,7 @@ static int windows_parse_command_line__internal_wchar(wchar_t *command_line, __i
             }
         }
     }
-    *at++ = 0; // zero terminate
+    if(in_argument) *at++ = 0; // zero terminate
     
     return amount_of_arguments;
 }
-- 
2.43.0


From 239ff500452be5357669b7333be67b8353f021c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:56 +0000
Subject: [PATCH 068/157] fix: wmain with an environment received the narrow
 arguments

---
 implicit/pre_wmain_envp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/pre_wmain_envp.c b/implicit/pre_wmain_envp.c
index 13c1fe6..b60df26 100644
--- a/implicit/pre_wmain_envp.c
+++ b/implicit/pre_wmain_envp.c
@@ -56,7 +56,7 @@ int _start(void){
     envp_array[amount_of_environment_strings] = 0;
     
     
-    int exit_code = wmain(argc, argv, envp_array);
+    int exit_code = wmain(argc, wargv, envp_array);
     
     ExitProcess((unsigned int)exit_code);
 }
-- 
2.43.0


From 4220c451571238db16449e37c83f23cd64155101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:09 +0000
Subject: [PATCH 069/157] fix: the command line given to WinMain contained the
 program name

---
 implicit/pre_WinMain.c  | 8 ++++++++
 implicit/pre_wWinMain.c | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/implicit/pre_WinMain.c b/implicit/pre_WinMain.c
index 3e768c1..68823b1 100644
--- a/implicit/pre_WinMain.c
+++ b/implicit/pre_WinMain.c
@@ -46,7 +46,15 @@ void _start(void){
     
     HINSTANCE hInstance = GetModuleHandleA(0); // @cleanup: __ImageBase?
     HINSTANCE hPrevInstance = 0; // "This parameter is always NULL."
+    
+    // "The command line for the application, excluding the program name."
     char *lpCmdLine = GetCommandLineA();
+    int in_quotes = 0;
+    for(; *lpCmdLine && (in_quotes || !character_is_whitespace(*lpCmdLine)); lpCmdLine++){
+        if(*lpCmdLine == '"') in_quotes = !in_quotes;
+    }
+    while(character_is_whitespace(*lpCmdLine)) lpCmdLine++;
+    
     int nShowCmd = (StartupInfo.dwFlags & /*STARTF_USESHOWWINDOW*/1) ? StartupInfo.wShowWindow : /*SW_SHOWDEFAULT*/10;
     
     int ExitCode = WinMain(hInstance, hPrevInstance, lpCmdLine, nShowCmd);
diff --git a/implicit/pre_wWinMain.c b/implicit/pre_wWinMain.c
index 23b7099..275c6e5 100644
--- a/implicit/pre_wWinMain.c
+++ b/implicit/pre_wWinMain.c
@@ -49,7 +49,15 @@ void _start(void){
     
     HINSTANCE hInstance = GetModuleHandleW(0); // @cleanup: __ImageBase?
     HINSTANCE hPrevInstance = 0; // "This parameter is always NULL."
+    
+    // "The command line for the application, excluding the program name."
     wchar_t *lpCmdLine = GetCommandLineW();
+    int in_quotes = 0;
+    for(; *lpCmdLine && (in_quotes || !wchar_is_whitespace(*lpCmdLine)); lpCmdLine++){
+        if(*lpCmdLine == '"') in_quotes = !in_quotes;
+    }
+    while(wchar_is_whitespace(*lpCmdLine)) lpCmdLine++;
+    
     int nShowCmd = (StartupInfo.dwFlags & /*STARTF_USESHOWWINDOW*/1) ? StartupInfo.wShowWindow : /*SW_SHOWDEFAULT*/10;
     
     int ExitCode = wWinMain(hInstance, hPrevInstance, lpCmdLine, nShowCmd);
-- 
2.43.0


From aa1e1e57ab2e5d739a3e858ff79425e51886c6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:52 +0000
Subject: [PATCH 070/157] fix: atomic_exchange on an atomic_char exchanged a
 _Bool, and did not exist for an atomic_bool

---
 implicit/include/stdatomic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/include/stdatomic.h b/implicit/include/stdatomic.h
index 0b2062f..de160b1 100644
--- a/implicit/include/stdatomic.h
+++ b/implicit/include/stdatomic.h
@@ -51,7 +51,7 @@
 // void atomic_exchange(volatile atomic_type *object, non_atomic_type value);
 // void atomic_exchange_explicit(volatile atomic_type *object, non_atomic_type value, memory_order order);
 #define atomic_exchange(object, value) _Generic((object), \
-        atomic_char*:    __atomic_exchange_bool,          \
+        atomic_bool*:    __atomic_exchange_bool,          \
                                                           \
         atomic_char*:    __atomic_exchange_char,          \
         atomic_short*:   __atomic_exchange_short,         \
-- 
2.43.0


From 6e0debd468384ebd9c378073c6656375322dcdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:52 +0000
Subject: [PATCH 071/157] fix: atomic_compare_exchange_strong_explicit and
 _weak_explicit take two memory orders

---
 implicit/include/stdatomic.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/implicit/include/stdatomic.h b/implicit/include/stdatomic.h
index de160b1..5dfc469 100644
--- a/implicit/include/stdatomic.h
+++ b/implicit/include/stdatomic.h
@@ -68,7 +68,7 @@
 #define atomic_exchange_explicit(object, value, order) atomic_exchange(object, value)
 
 // _Bool atomic_compare_exchange_strong(volatile atomic_type *object, non_atomic_type *expected, non_atomic_type desired);
-// _Bool atomic_compare_exchange_strong_explicit(volatile atomic_type *object, non_atomic_type *expected, non_atomic_type desired, memory_order order);
+// _Bool atomic_compare_exchange_strong_explicit(volatile atomic_type *object, non_atomic_type *expected, non_atomic_type desired, memory_order success, memory_order failure);
 #define atomic_compare_exchange_strong(object, expected, desired) _Generic((object), \
         atomic_bool*:    __atomic_compare_exchange_bool,                             \
                                                                                      \
@@ -87,12 +87,12 @@
         default:        __atomic_compare_exchange_pointer,                           \
 )(object, expected, desired)
 
-#define atomic_compare_exchange_strong_explicit(object, expected, desired, order) atomic_compare_exchange_strong(object, expected, desired)
+#define atomic_compare_exchange_strong_explicit(object, expected, desired, success, failure) atomic_compare_exchange_strong(object, expected, desired)
 
 // _Bool atomic_compare_exchange_weak(volatile atomic_type *object, non_atomic_type *expected, non_atomic_type desired);
-// _Bool atomic_compare_exchange_weak_explicit(volatile atomic_type *object, non_atomic_type *expected, non_atomic_type desired, memory_order order);
+// _Bool atomic_compare_exchange_weak_explicit(volatile atomic_type *object, non_atomic_type *expected, non_atomic_type desired, memory_order success, memory_order failure);
 #define atomic_compare_exchange_weak(object, expected, desired) atomic_compare_exchange_strong(object, expected, desired)
-#define atomic_compare_exchange_weak_explicit(object, expected, desired, order) atomic_compare_exchange_strong(object, expected, desired)
+#define atomic_compare_exchange_weak_explicit(object, expected, desired, success, failure) atomic_compare_exchange_strong(object, expected, desired)
 
 // non_atomic_type atomic_fetch_{add,sub,or,xor,and}(volatile atomic_type *object, non_atomic_type operand);
 // non_atomic_type atomic_fetch_{add,sub,or,xor,and}_explicit(volatile atomic_type *object, non_atomic_type operand, memory_order order);
-- 
2.43.0


From 357b035c81a8f61a3d13e87e65e30586414f82c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:54 +0000
Subject: [PATCH 072/157] fix: ++ and -- of an _Atomic lost updates, and the
 value of an atomic compound assignment was read a second time

---
 src/emit_x64.c | 119 +++++++++++++++++++++++++++++++++++++++++++++++++
 src/ir.h       |   5 +++
 src/parse.c    |  84 +++++++++++++++++-----------------
 3 files changed, 164 insertions(+), 44 deletions(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index 0be618d..2cb8209 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -1817,6 +1817,61 @@ func struct emit_location *emit_divide_or_mod_or_multiply__internal(struct conte
     }
 }
 
+// An atomic operation for which the result is not used, does not have to produce a value.
+func b32 atomic_result_is_unused(struct ast_function *function, u8 *ir_arena_at){
+    return ir_arena_at < function->end_in_ir_arena && ((struct ir *)ir_arena_at)->kind == IR_pop_expression;
+}
+
+// Used if the value of the expression 'lhs op= rhs' is needed and 'lhs' is atomic.
+// The value is the result of the operation, we cannot load 'lhs' again as some other thread might have changed it:
+// 
+//     mov rax, [lhs]
+//   retry:
+//     mov result, rax
+//     op result, rhs
+//     lock cmpxchg [lhs], result
+//     jnz retry
+//     
+func struct emit_location *emit_atomic_compound_assignment_with_result(struct context *context, struct emit_location *lhs, struct emit_location *rhs, u8 reg8_opcode, u8 reg_opcode){
+    
+    assert(lhs->state == EMIT_LOCATION_register_relative);
+    
+    smm size = lhs->size;
+    if(rhs->state == EMIT_LOCATION_immediate) rhs->size = size;
+    
+    enum register_encoding rax = allocate_specific_register(context, REGISTER_KIND_gpr, REGISTER_A);
+    struct emit_location *expected = emit_location_loaded(context, REGISTER_KIND_gpr, rax, size);
+    emit_location_prevent_spilling(context, expected);
+    
+    emit_location_prevent_spilling(context, lhs);
+    rhs = emit_load_gpr(context, rhs);
+    emit_location_prevent_spilling(context, rhs);
+    
+    enum register_encoding reg = allocate_register(context, REGISTER_KIND_gpr);
+    struct emit_location *result = emit_location_loaded(context, REGISTER_KIND_gpr, reg, size);
+    emit_location_prevent_spilling(context, result);
+    
+    u8 move = (size == 1) ? MOVE_REG8_REGM8 : MOVE_REG_REGM;
+    emit_register_relative_register(context, no_prefix(), one_byte_opcode(move), rax, lhs);
+    
+    smm retry = get_bytes_emitted(context);
+    emit_register_op__internal(context, no_prefix(), one_byte_opcode(move), reg, rax, size);
+    emit_register_op__internal(context, no_prefix(), one_byte_opcode((size == 1) ? reg8_opcode : reg_opcode), reg, rhs->loaded_register, size);
+    emit_register_relative_register(context, create_prefixes(ASM_PREFIX_lock), two_byte_opcode((size == 1) ? COMPARE_EXCHANGE_REG8_REGM8 : COMPARE_EXCHANGE_REG_REGM), reg, lhs);
+    
+    emit(JUMP_REL8_IF_NOT_ZERO);
+    emit(retry - (get_bytes_emitted(context) + 1));
+    
+    emit_location_allow_spilling(context, result);
+    emit_location_allow_spilling(context, rhs);
+    emit_location_allow_spilling(context, lhs);
+    emit_location_allow_spilling(context, expected);
+    free_emit_location(context, rhs);
+    free_emit_location(context, lhs);
+    free_emit_location(context, expected);
+    return result;
+}
+
 func struct emit_location *emit_compound_assignment__internal(struct context *context, struct prefixes prefixes, struct emit_location *lhs,
         struct emit_location *rhs, b32 is_signed, u8 reg_extension, u8 u8_code, u8 opcode){
     
@@ -4257,6 +4312,45 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 }
             }break;
             
+            case IR_postinc_atomic_u8: case IR_postinc_atomic_u16: case IR_postinc_atomic_u32: case IR_postinc_atomic_u64:
+            case IR_postdec_atomic_u8: case IR_postdec_atomic_u16: case IR_postdec_atomic_u32: case IR_postdec_atomic_u64:
+            case IR_preinc_atomic_u8:  case IR_preinc_atomic_u16:  case IR_preinc_atomic_u32:  case IR_preinc_atomic_u64:
+            case IR_predec_atomic_u8:  case IR_predec_atomic_u16:  case IR_predec_atomic_u32:  case IR_predec_atomic_u64:{
+                ir_arena_at += sizeof(struct ir);
+                
+                struct emit_location *loc = emit_location_stack[emit_location_stack_at-1];
+                assert(loc->state == EMIT_LOCATION_register_relative);
+                
+                int is_pre = ir_kind >= IR_preinc_atomic_u8;
+                int is_dec = (IR_postdec_atomic_u8 <= ir_kind && ir_kind <= IR_postdec_atomic_u64) || ir_kind >= IR_predec_atomic_u8;
+                u8 extension = is_dec ? FF_DECREMENT_REGM : FF_INCREMENT_REGM;
+                u8 inst = (loc->size == 1) ? REG_EXTENDED_OPCODE_FE : REG_EXTENDED_OPCODE_FF;
+                
+                if(atomic_result_is_unused(current_function, ir_arena_at)){
+                    // lock inc/dec [loc]
+                    emit_register_relative_extended(context, create_prefixes(ASM_PREFIX_lock), one_byte_opcode(inst), extension, loc);
+                    break;
+                }
+                
+                emit_location_prevent_spilling(context, loc);
+                enum register_encoding reg = allocate_register(context, REGISTER_KIND_gpr);
+                struct emit_location *loaded = emit_load_into_specific_gpr(context, emit_location_immediate(context, is_dec ? -1 : 1, /*size*/8), reg);
+                emit_location_allow_spilling(context, loc);
+                loaded->size = loc->size;
+                
+                // lock xadd [loc], loaded
+                u8 xadd = (loc->size == 1) ? EXCHANGE_ADD_REGM8_REG8 : EXCHANGE_ADD_REGM_REG;
+                emit_location_prevent_spilling(context, loaded);
+                emit_register_relative_register(context, create_prefixes(ASM_PREFIX_lock), two_byte_opcode(xadd), loaded->loaded_register, loc);
+                emit_location_allow_spilling(context, loaded);
+                free_emit_location(context, loc);
+                
+                // inc/dec loaded
+                if(is_pre) emit_reg_extended_op(context, no_prefix(), one_byte_opcode(inst), extension, loaded);
+                
+                emit_location_stack[emit_location_stack_at-1] = loaded;
+            }break;
+            
             case IR_load_address:
             case IR_load_address_lhs:{
                 ir_arena_at += sizeof(struct ir);
@@ -4575,6 +4669,11 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 struct emit_location *rhs = emit_location_stack[emit_location_stack_at - 1];
                 emit_location_stack_at -= 1;
                 
+                if(ir_kind >= IR_and_atomic_assignment_u8 && !atomic_result_is_unused(current_function, ir_arena_at)){
+                    emit_location_stack[emit_location_stack_at - 1] = emit_atomic_compound_assignment_with_result(context, lhs, rhs, AND_REG8_REGM8, AND_REG_REGM);
+                    break;
+                }
+                
                 struct prefixes prefix = (ir_kind >= IR_and_atomic_assignment_u8) ? create_prefixes(ASM_PREFIX_lock) : no_prefix();
                 emit_location_stack[emit_location_stack_at - 1] = emit_compound_assignment__internal(context, prefix, lhs, rhs, /*is_signed*/0, REG_OPCODE_AND, AND_REGM8_REG8, AND_REGM_REG);
             }break;
@@ -4587,6 +4686,11 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 struct emit_location *rhs = emit_location_stack[emit_location_stack_at - 1];
                 emit_location_stack_at -= 1;
                 
+                if(ir_kind >= IR_or_atomic_assignment_u8 && !atomic_result_is_unused(current_function, ir_arena_at)){
+                    emit_location_stack[emit_location_stack_at - 1] = emit_atomic_compound_assignment_with_result(context, lhs, rhs, OR_REG8_REGM8, OR_REG_REGM);
+                    break;
+                }
+                
                 struct prefixes prefix = (ir_kind >= IR_or_atomic_assignment_u8) ? create_prefixes(ASM_PREFIX_lock) : no_prefix();
                 emit_location_stack[emit_location_stack_at - 1] = emit_compound_assignment__internal(context, prefix, lhs, rhs, /*is_signed*/0, REG_OPCODE_OR, OR_REGM8_REG8, OR_REGM_REG);
             }break;
@@ -4599,6 +4703,11 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 struct emit_location *rhs = emit_location_stack[emit_location_stack_at - 1];
                 emit_location_stack_at -= 1;
                 
+                if(ir_kind >= IR_xor_atomic_assignment_u8 && !atomic_result_is_unused(current_function, ir_arena_at)){
+                    emit_location_stack[emit_location_stack_at - 1] = emit_atomic_compound_assignment_with_result(context, lhs, rhs, XOR_REG8_REGM8, XOR_REG_REGM);
+                    break;
+                }
+                
                 struct prefixes prefix = (ir_kind >= IR_xor_atomic_assignment_u8) ? create_prefixes(ASM_PREFIX_lock) : no_prefix();
                 emit_location_stack[emit_location_stack_at - 1] = emit_compound_assignment__internal(context, prefix, lhs, rhs, /*is_signed*/0, REG_OPCODE_XOR, XOR_REGM8_REG8, XOR_REGM_REG);
             }break;
@@ -4612,6 +4721,11 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 struct emit_location *rhs = emit_location_stack[emit_location_stack_at - 1];
                 emit_location_stack_at -= 1;
                 
+                if(ir_kind >= IR_add_atomic_assignment_u8 && !atomic_result_is_unused(current_function, ir_arena_at)){
+                    emit_location_stack[emit_location_stack_at - 1] = emit_atomic_compound_assignment_with_result(context, lhs, rhs, ADD_REG8_REGM8, ADD_REG_REGM);
+                    break;
+                }
+                
                 struct prefixes prefix = (ir_kind >= IR_add_atomic_assignment_u8) ? create_prefixes(ASM_PREFIX_lock) : no_prefix();
                 emit_location_stack[emit_location_stack_at - 1] = emit_compound_assignment__internal(context, prefix, lhs, rhs, /*is_signed*/0, REG_OPCODE_ADD, ADD_REGM8_REG8, ADD_REGM_REG); // :ir_refactor_atomic_operations.
             }break;
@@ -4634,6 +4748,11 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 struct emit_location *rhs = emit_location_stack[emit_location_stack_at - 1];
                 emit_location_stack_at -= 1;
                 
+                if(ir_kind >= IR_subtract_atomic_assignment_u8 && !atomic_result_is_unused(current_function, ir_arena_at)){
+                    emit_location_stack[emit_location_stack_at - 1] = emit_atomic_compound_assignment_with_result(context, lhs, rhs, SUB_REG8_REGM8, SUB_REG_REGM);
+                    break;
+                }
+                
                 struct prefixes prefix = (ir_kind >= IR_subtract_atomic_assignment_u8) ? create_prefixes(ASM_PREFIX_lock) : no_prefix();
                 
                 emit_location_stack[emit_location_stack_at - 1] = emit_compound_assignment__internal(context, prefix, lhs, rhs, /*is_signed*/0, REG_OPCODE_SUB, SUB_REGM8_REG8, SUB_REGM_REG); // :ir_refactor_atomic_operations.
diff --git a/src/ir.h b/src/ir.h
index ff51940..adce0d2 100644
--- a/src/ir.h
+++ b/src/ir.h
@@ -486,6 +486,11 @@ enum ir_kind{
     IR_truncate_to_u32,
     IR_truncate_to_u32_lhs,
     
+    IR_postinc_atomic_u8, IR_postinc_atomic_u16, IR_postinc_atomic_u32, IR_postinc_atomic_u64,
+    IR_postdec_atomic_u8, IR_postdec_atomic_u16, IR_postdec_atomic_u32, IR_postdec_atomic_u64,
+    IR_preinc_atomic_u8, IR_preinc_atomic_u16, IR_preinc_atomic_u32, IR_preinc_atomic_u64,
+    IR_predec_atomic_u8, IR_predec_atomic_u16, IR_predec_atomic_u32, IR_predec_atomic_u64,
+    
     IR_count,
 };
 
diff --git a/src/parse.c b/src/parse.c
index 6433ce7..9ea7ea2 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -5202,10 +5202,6 @@ case NUMBER_KIND_##type:{ \
                 if(!check_unary_for_basic_types(context, operand.resolved_type, CHECK_basic, test)) return operand;
                 if(check_types_for_increment_or_decrement(context, operand.resolved_type, test, "++")) return operand;
                 
-                // 
-                // @cleanup: Atomic integer types.
-                // 
-                
                 if(operand.resolved_type->kind == AST_pointer_type){
                     struct ir_pointer_increment *increment = push_uninitialized_struct(&context->ir_arena, struct ir_pointer_increment);
                     increment->base.kind = IR_postinc_pointer;
@@ -5221,7 +5217,7 @@ case NUMBER_KIND_##type:{ \
                 }else{
                     enum ir_type ir_type = ir_type_from_type(operand.resolved_type);
                     
-                    static u8 ir_type_to_inc_kind[] = {
+                    static u16 ir_type_to_inc_kind[] = {
                         [IR_TYPE_bool] = IR_postinc_bool,
                         
                         [IR_TYPE_s8] = IR_postinc_u8,
@@ -5239,20 +5235,20 @@ case NUMBER_KIND_##type:{ \
                         [IR_TYPE_f32] = IR_postinc_f32,
                         [IR_TYPE_f64] = IR_postinc_f64,
                         
-                        // @incomplete: There should probably be atomic versions of these.
+                        // @incomplete: There should probably be an atomic version of this.
                         [IR_TYPE_atomic_bool] = IR_postinc_bool,
                         
-                        [IR_TYPE_atomic_s8] = IR_postinc_u8,
-                        [IR_TYPE_atomic_u8] = IR_postinc_u8,
+                        [IR_TYPE_atomic_s8] = IR_postinc_atomic_u8,
+                        [IR_TYPE_atomic_u8] = IR_postinc_atomic_u8,
                         
-                        [IR_TYPE_atomic_s16] = IR_postinc_u16,
-                        [IR_TYPE_atomic_u16] = IR_postinc_u16,
+                        [IR_TYPE_atomic_s16] = IR_postinc_atomic_u16,
+                        [IR_TYPE_atomic_u16] = IR_postinc_atomic_u16,
                         
-                        [IR_TYPE_atomic_s32] = IR_postinc_u32,
-                        [IR_TYPE_atomic_u32] = IR_postinc_u32,
+                        [IR_TYPE_atomic_s32] = IR_postinc_atomic_u32,
+                        [IR_TYPE_atomic_u32] = IR_postinc_atomic_u32,
                         
-                        [IR_TYPE_atomic_s64] = IR_postinc_u64,
-                        [IR_TYPE_atomic_u64] = IR_postinc_u64,
+                        [IR_TYPE_atomic_s64] = IR_postinc_atomic_u64,
+                        [IR_TYPE_atomic_u64] = IR_postinc_atomic_u64,
                     };
                     
                     operand.ir = push_ir(context, ir_type_to_inc_kind[ir_type]);
@@ -5279,7 +5275,7 @@ case NUMBER_KIND_##type:{ \
                 }else{
                     enum ir_type ir_type = ir_type_from_type(operand.resolved_type);
                     
-                    static u8 ir_type_to_inc_kind[] = {
+                    static u16 ir_type_to_inc_kind[] = {
                         [IR_TYPE_bool] = IR_postdec_bool,
                         
                         [IR_TYPE_s8] = IR_postdec_u8,
@@ -5297,20 +5293,20 @@ case NUMBER_KIND_##type:{ \
                         [IR_TYPE_f32] = IR_postdec_f32,
                         [IR_TYPE_f64] = IR_postdec_f64,
                         
-                        // @incomplete: There should probably be atomic versions of these.
+                        // @incomplete: There should probably be an atomic version of this.
                         [IR_TYPE_atomic_bool] = IR_postdec_bool,
                         
-                        [IR_TYPE_atomic_s8] = IR_postdec_u8,
-                        [IR_TYPE_atomic_u8] = IR_postdec_u8,
+                        [IR_TYPE_atomic_s8] = IR_postdec_atomic_u8,
+                        [IR_TYPE_atomic_u8] = IR_postdec_atomic_u8,
                         
-                        [IR_TYPE_atomic_s16] = IR_postdec_u16,
-                        [IR_TYPE_atomic_u16] = IR_postdec_u16,
+                        [IR_TYPE_atomic_s16] = IR_postdec_atomic_u16,
+                        [IR_TYPE_atomic_u16] = IR_postdec_atomic_u16,
                         
-                        [IR_TYPE_atomic_s32] = IR_postdec_u32,
-                        [IR_TYPE_atomic_u32] = IR_postdec_u32,
+                        [IR_TYPE_atomic_s32] = IR_postdec_atomic_u32,
+                        [IR_TYPE_atomic_u32] = IR_postdec_atomic_u32,
                         
-                        [IR_TYPE_atomic_s64] = IR_postdec_u64,
-                        [IR_TYPE_atomic_u64] = IR_postdec_u64,
+                        [IR_TYPE_atomic_s64] = IR_postdec_atomic_u64,
+                        [IR_TYPE_atomic_u64] = IR_postdec_atomic_u64,
                     };
                     
                     operand.ir = push_ir(context, ir_type_to_inc_kind[ir_type]);
@@ -5753,7 +5749,7 @@ case NUMBER_KIND_##type:{ \
                 }else{
                     enum ir_type ir_type = ir_type_from_type(operand.resolved_type);
                     
-                    static u8 ir_type_to_inc_kind[] = {
+                    static u16 ir_type_to_inc_kind[] = {
                         [IR_TYPE_bool] = IR_preinc_bool,
                         
                         [IR_TYPE_s8] = IR_preinc_u8,
@@ -5771,20 +5767,20 @@ case NUMBER_KIND_##type:{ \
                         [IR_TYPE_f32] = IR_preinc_f32,
                         [IR_TYPE_f64] = IR_preinc_f64,
                         
-                        // @incomplete: There should probably be atomic versions of these.
+                        // @incomplete: There should probably be an atomic version of this.
                         [IR_TYPE_atomic_bool] = IR_preinc_bool,
                         
-                        [IR_TYPE_atomic_s8] = IR_preinc_u8,
-                        [IR_TYPE_atomic_u8] = IR_preinc_u8,
+                        [IR_TYPE_atomic_s8] = IR_preinc_atomic_u8,
+                        [IR_TYPE_atomic_u8] = IR_preinc_atomic_u8,
                         
-                        [IR_TYPE_atomic_s16] = IR_preinc_u16,
-                        [IR_TYPE_atomic_u16] = IR_preinc_u16,
+                        [IR_TYPE_atomic_s16] = IR_preinc_atomic_u16,
+                        [IR_TYPE_atomic_u16] = IR_preinc_atomic_u16,
                         
-                        [IR_TYPE_atomic_s32] = IR_preinc_u32,
-                        [IR_TYPE_atomic_u32] = IR_preinc_u32,
+                        [IR_TYPE_atomic_s32] = IR_preinc_atomic_u32,
+                        [IR_TYPE_atomic_u32] = IR_preinc_atomic_u32,
                         
-                        [IR_TYPE_atomic_s64] = IR_preinc_u64,
-                        [IR_TYPE_atomic_u64] = IR_preinc_u64,
+                        [IR_TYPE_atomic_s64] = IR_preinc_atomic_u64,
+                        [IR_TYPE_atomic_u64] = IR_preinc_atomic_u64,
                     };
                     
                     operand.ir = push_ir(context, ir_type_to_inc_kind[ir_type]);
@@ -5812,7 +5808,7 @@ case NUMBER_KIND_##type:{ \
                 }else{
                     enum ir_type ir_type = ir_type_from_type(operand.resolved_type);
                     
-                    static u8 ir_type_to_inc_kind[] = {
+                    static u16 ir_type_to_inc_kind[] = {
                         [IR_TYPE_bool] = IR_predec_bool,
                         
                         [IR_TYPE_s8] = IR_predec_u8,
@@ -5830,20 +5826,20 @@ case NUMBER_KIND_##type:{ \
                         [IR_TYPE_f32] = IR_predec_f32,
                         [IR_TYPE_f64] = IR_predec_f64,
                         
-                        // @incomplete: There should probably be atomic versions of these.
+                        // @incomplete: There should probably be an atomic version of this.
                         [IR_TYPE_atomic_bool] = IR_predec_bool,
                         
-                        [IR_TYPE_atomic_s8] = IR_predec_u8,
-                        [IR_TYPE_atomic_u8] = IR_predec_u8,
+                        [IR_TYPE_atomic_s8] = IR_predec_atomic_u8,
+                        [IR_TYPE_atomic_u8] = IR_predec_atomic_u8,
                         
-                        [IR_TYPE_atomic_s16] = IR_predec_u16,
-                        [IR_TYPE_atomic_u16] = IR_predec_u16,
+                        [IR_TYPE_atomic_s16] = IR_predec_atomic_u16,
+                        [IR_TYPE_atomic_u16] = IR_predec_atomic_u16,
                         
-                        [IR_TYPE_atomic_s32] = IR_predec_u32,
-                        [IR_TYPE_atomic_u32] = IR_predec_u32,
+                        [IR_TYPE_atomic_s32] = IR_predec_atomic_u32,
+                        [IR_TYPE_atomic_u32] = IR_predec_atomic_u32,
                         
-                        [IR_TYPE_atomic_s64] = IR_predec_u64,
-                        [IR_TYPE_atomic_u64] = IR_predec_u64,
+                        [IR_TYPE_atomic_s64] = IR_predec_atomic_u64,
+                        [IR_TYPE_atomic_u64] = IR_predec_atomic_u64,
                     };
                     
                     operand.ir = push_ir(context, ir_type_to_inc_kind[ir_type]);
-- 
2.43.0


From bd199b313ab97421ea39491b999663ef316bef71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:04 +0000
Subject: [PATCH 073/157] fix: _InterlockedAnd, _InterlockedOr and
 _InterlockedXor returned the new value

---
 implicit/include/intrinsic.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/implicit/include/intrinsic.c b/implicit/include/intrinsic.c
index f0c14a1..d192e95 100644
--- a/implicit/include/intrinsic.c
+++ b/implicit/include/intrinsic.c
@@ -873,7 +873,7 @@ __declspec(inline_asm) char _InterlockedOr8(char volatile *value, char mask){
     lock cmpxchg [value], cl
     jne .loop
     
-    return cl
+    return al
 }
 
 __declspec(inline_asm) short _InterlockedOr16(short volatile *value, short mask){
@@ -887,7 +887,7 @@ __declspec(inline_asm) short _InterlockedOr16(short volatile *value, short mask)
     lock cmpxchg [value], cx
     jne .loop
     
-    return cx
+    return ax
 }
 
 __declspec(inline_asm) long _InterlockedOr(long volatile *value, long mask){
@@ -901,7 +901,7 @@ __declspec(inline_asm) long _InterlockedOr(long volatile *value, long mask){
     lock cmpxchg [value], ecx
     jne .loop
     
-    return ecx
+    return eax
 }
 
 
@@ -916,7 +916,7 @@ __declspec(inline_asm) __int64 _InterlockedOr64(__int64 volatile *value, __int64
     lock cmpxchg [value], rcx
     jne .loop
     
-    return rcx
+    return rax
 }
 
 __declspec(inline_asm) char _InterlockedXor8(char volatile *value, char mask){
@@ -930,7 +930,7 @@ __declspec(inline_asm) char _InterlockedXor8(char volatile *value, char mask){
     lock cmpxchg [value], cl
     jne .loop
     
-    return cl
+    return al
 }
 
 __declspec(inline_asm) short _InterlockedXor16(short volatile *value, short mask){
@@ -944,7 +944,7 @@ __declspec(inline_asm) short _InterlockedXor16(short volatile *value, short mask
     lock cmpxchg [value], cx
     jne .loop
     
-    return cx
+    return ax
 }
 
 __declspec(inline_asm) long _InterlockedXor(long volatile *value, long mask){
@@ -958,7 +958,7 @@ __declspec(inline_asm) long _InterlockedXor(long volatile *value, long mask){
     lock cmpxchg [value], ecx
     jne .loop
     
-    return ecx
+    return eax
 }
 
 
@@ -973,7 +973,7 @@ __declspec(inline_asm) __int64 _InterlockedXor64(__int64 volatile *value, __int6
     lock cmpxchg [value], rcx
     jne .loop
     
-    return rcx
+    return rax
 }
 
 
@@ -988,7 +988,7 @@ __declspec(inline_asm) char _InterlockedAnd8(char volatile *value, char mask){
     lock cmpxchg [value], cl
     jne .loop
     
-    return cl
+    return al
 }
 
 __declspec(inline_asm) short _InterlockedAnd16(short volatile *value, short mask){
@@ -1002,7 +1002,7 @@ __declspec(inline_asm) short _InterlockedAnd16(short volatile *value, short mask
     lock cmpxchg [value], cx
     jne .loop
     
-    return cx
+    return ax
 }
 
 __declspec(inline_asm) long _InterlockedAnd(long volatile *value, long mask){
@@ -1016,7 +1016,7 @@ __declspec(inline_asm) long _InterlockedAnd(long volatile *value, long mask){
     lock cmpxchg [value], ecx
     jne .loop
     
-    return ecx
+    return eax
 }
 
 
@@ -1031,7 +1031,7 @@ __declspec(inline_asm) __int64 _InterlockedAnd64(__int64 volatile *value, __int6
     lock cmpxchg [value], rcx
     jne .loop
     
-    return rcx
+    return rax
 }
 
 
-- 
2.43.0


From d4a8808937763cbf1014c52f3c440579ed895fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:04 +0000
Subject: [PATCH 074/157] fix: _InterlockedCompareExchange128 overwrote the
 non-volatile register rbx

---
 implicit/include/intrinsic.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/implicit/include/intrinsic.c b/implicit/include/intrinsic.c
index d192e95..926cb68 100644
--- a/implicit/include/intrinsic.c
+++ b/implicit/include/intrinsic.c
@@ -372,6 +372,9 @@ __declspec(inline_asm) unsigned __int8 _InterlockedCompareExchange128(__int64 *d
     
     // on success cmpxchg16b places the value in rcx:rbx into the memory operand
     mov rcx, exchange_high
+    
+    // rbx is non-volatile, hence we have to preserve it.
+    mov r10, rbx
     mov rbx, exchange_low
     
     // on success the ZF is set and the destination is set to rcx:rdx, else ZF is cleared and
@@ -386,6 +389,8 @@ __declspec(inline_asm) unsigned __int8 _InterlockedCompareExchange128(__int64 *d
     mov [r9 + 8], rdx
     mov [r9 + 0], rax
     
+    mov rbx, r10
+    
     return cl
 }
 
-- 
2.43.0


From 0f830d2142e285b41e18798da04762c2ee4cac9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:14 +0000
Subject: [PATCH 075/157] fix: _InterlockedDecrement returned the value before
 the decrement plus one

---
 implicit/include/intrinsic.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/implicit/include/intrinsic.c b/implicit/include/intrinsic.c
index 926cb68..9455367 100644
--- a/implicit/include/intrinsic.c
+++ b/implicit/include/intrinsic.c
@@ -250,8 +250,8 @@ __declspec(inline_asm) __int8 _InterlockedDecrement8(__int8 *to_increment){
     // add the one, the preincremented value will be in dl
     lock xadd [to_increment], dl
     
-    // increment dl such that we have the 'incremented_value'
-    inc dl
+    // decrement dl such that we have the 'decremented_value'
+    dec dl
     
     // save the value
     return dl
@@ -267,8 +267,8 @@ __declspec(inline_asm) __int16 _InterlockedDecrement16(__int16 *to_increment){
     // add the one, the preincremented value will be in dx
     lock xadd [to_increment], dx
     
-    // increment dl such that we have the 'incremented_value'
-    inc dx
+    // decrement dl such that we have the 'decremented_value'
+    dec dx
     
     // save the value
     return dx
@@ -285,8 +285,8 @@ __declspec(inline_asm) __int32 _InterlockedDecrement(__int32 *to_increment){
     // add the one, the preincremented value will be in edx
     lock xadd [to_increment], edx
     
-    // increment dl such that we have the 'incremented_value'
-    inc edx
+    // decrement dl such that we have the 'decremented_value'
+    dec edx
     
     // save the value
     return edx
@@ -303,8 +303,8 @@ __declspec(inline_asm) __int64 _InterlockedDecrement64(__int64 *to_increment){
     // add the one, the preincremented value will be in rdx
     lock xadd [to_increment], rdx
     
-    // increment dl such that we have the 'incremented_value'
-    inc rdx
+    // decrement dl such that we have the 'decremented_value'
+    dec rdx
     
     // save the value
     return rdx
-- 
2.43.0


From 8945f990f9b9559dd6e45a44a4ea149fc6cc13dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:03 +0000
Subject: [PATCH 076/157] fix: the loop of an inline asm function called in an
 expression spilled registers more than once

---
 src/emit_inline_asm_block.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index 836a395..09b7df5 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -203,6 +203,36 @@ func struct emit_location *_asm_block_resolve_and_allocate_operand(struct contex
 func void emit_inline_asm_block(struct context *context, struct ir_asm_block *asm_block){
 #define allocate_specific_register "This is a syntax error to remind you that you are not allowed to use this function here!"
     
+    if(context->in_inline_asm_function && context->current_inline_asm_function->amount_of_jump_labels){
+        // 
+        // Instructions of this block might be executed more than once (or not at all), hence we cannot spill registers 
+        // in the middle of the block. Instead spill all registers which are live in the containing expression and 
+        // allocate all registers the user uses, up front.
+        // 
+        for(enum register_kind register_kind = 0; register_kind < REGISTER_KIND_count; register_kind++){
+            for(enum register_encoding reg = 0; reg < 16; reg++){
+                struct emit_location *loc = context->register_allocators[register_kind].emit_location_map[reg];
+                if(!loc || loc->prevent_spilling) continue;
+                
+                b32 is_argument = false;
+                for(struct inline_asm_function_argument *argument = context->inline_asm_function_arguments.first; argument; argument = argument->next){
+                    if(argument->loaded_location == loc) is_argument = true;
+                }
+                
+                if(!is_argument) spill_register(context, register_kind, reg);
+            }
+        }
+        
+        for(struct asm_instruction *inst = asm_block->instructions.first; inst; inst = inst->next){
+            for(smm operand_index = 0; operand_index < inst->amount_of_operands; operand_index++){
+                enum asm_arg_kind kind = inst->operands[operand_index].kind;
+                if(kind == ASM_ARG_register || kind == ASM_ARG_memory_operand){
+                    _asm_block_resolve_and_allocate_operand(context, inst, operand_index);
+                }
+            }
+        }
+    }
+    
     for(struct asm_instruction *inst = asm_block->instructions.first; inst; inst = inst->next){
         context->inline_asm_mode = inst->token;
         
-- 
2.43.0


From 4691fc770c2c5100504908c709c41f3554d88528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:49 +0000
Subject: [PATCH 077/157] fix: &= |= and ^= of an atomic_bool were not atomic,
 and &= depended on more than the lowest bit

---
 src/parse.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 9ea7ea2..17ff96b 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -7300,17 +7300,23 @@ case NUMBER_KIND_##type:{ \
                     punt_compound_assignment(context, lhs, rhs, stack_entry->token, ast_kind);
                 }else{
                     // These are always fine, we never have to punt.
-                    maybe_insert_implicit_assignment_cast_and_check_that_types_match(context, lhs->resolved_type, lhs->defined_type, rhs, stack_entry->token);
                     
                     struct ast_type *lhs_type = lhs->resolved_type;
                     if(lhs_type == &globals.typedef_atomic_bool) lhs_type = &globals.typedef_atomic_u8;
                     
+                    if(lhs_type != lhs->resolved_type && ast_kind == AST_and_assignment){
+                        // '_Bool &= rhs' only depends on the lowest bit of the right hand side, not on 'rhs != 0'.
+                        push_cast(context, AST_cast, &globals.typedef_u8, null, rhs);
+                    }else{
+                        maybe_insert_implicit_assignment_cast_and_check_that_types_match(context, lhs->resolved_type, lhs->defined_type, rhs, stack_entry->token);
+                    }
+                    
                     enum ir_kind ir_base = 0;
                     if(ast_kind == AST_and_assignment) ir_base = IR_and_assignment_u8;
                     if(ast_kind == AST_or_assignment)  ir_base = IR_or_assignment_u8;
                     if(ast_kind == AST_xor_assignment) ir_base = IR_xor_assignment_u8;
                     
-                    enum ir_type ir_type = ir_type_from_type(lhs->resolved_type);
+                    enum ir_type ir_type = ir_type_from_type(lhs_type);
                     u32 type_index = (ir_type - IR_TYPE_s8) >> 1;
                     if(ir_type >= IR_TYPE_atomic_bool) type_index -= 3;
                     
-- 
2.43.0


From 10314b20bf4858cb67c88adccacc215ea50108e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:56 +0000
Subject: [PATCH 078/157] fix: implement ldmxcsr and stmxcsr, which all MXCSR
 intrinsics use

---
 src/emit_inline_asm_block.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index 09b7df5..bc68b43 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -668,6 +668,11 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 emit_register_relative_extended(context, no_prefix(), two_byte_opcode(0xae), 7, operand);
             }break;
             
+            case MEMONIC_ldmxcsr: case MEMONIC_stmxcsr:{
+                assert(operand->state == EMIT_LOCATION_register_relative);
+                emit_register_relative_extended(context, no_prefix(), two_byte_opcode(0xae), (inst->memonic == MEMONIC_ldmxcsr) ? 2 : 3, operand);
+            }break;
+            
             case MEMONIC_rdtsc:{
                 asm_block_load_registers_which_was_used_by_user(context, REGISTER_KIND_gpr, REGISTER_A, 8);
                 asm_block_load_registers_which_was_used_by_user(context, REGISTER_KIND_gpr, REGISTER_D, 8);
-- 
2.43.0


From 59f72cbbaed25f804bb86dee76b39883fc8176a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:01 +0000
Subject: [PATCH 079/157] fix: emit the gs segment override for memory operands
 of inline assembly

---
 src/emit_inline_asm_block.c | 2 ++
 src/emit_x64.c              | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index bc68b43..b05c098 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -178,6 +178,8 @@ func struct emit_location *_asm_block_resolve_and_allocate_operand(struct contex
                 case 8: ret->log_index_scale = 3; break;
             }
             
+            ret->inline_asm__is_gs_relative = (instruction->prefixes & ASM_PREFIX_gs) != 0;
+            
             return ret;
         }break;
         case ASM_ARG_immediate:{
diff --git a/src/emit_x64.c b/src/emit_x64.c
index 2cb8209..9232693 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -764,6 +764,7 @@ struct emit_location{
             smm log_index_scale;
             smm offset;
             struct ir *ir; // rip_relative iff (ast != null)
+            b32 inline_asm__is_gs_relative;
         }; // register_relative & rip_relative
     };
 };
@@ -816,6 +817,7 @@ func struct emit_location *emit_location_register_relative__internal(struct cont
     ret->log_index_scale = 0; // @note: this is almost never used, thus we set it specifically if we need it...
     ret->offset = offset;
     ret->ir = ir;
+    ret->inline_asm__is_gs_relative = 0;
     
     return ret;
 }
@@ -1168,6 +1170,8 @@ func void emit_register_relative__internal(struct context *context, struct prefi
     assert(loc->base->state == EMIT_LOCATION_loaded);
     assert(!loc->index || loc->index->state == EMIT_LOCATION_loaded);
     
+    if(loc->inline_asm__is_gs_relative) prefixes.legacy_prefixes |= ASM_PREFIX_gs;
+    
     enum register_encoding base =  loc->base->loaded_register;
     enum register_encoding index = loc->index ? loc->index->loaded_register : INVALID_REGISTER;
     
-- 
2.43.0


From a742b2c884ecdff792faee2fb5fc3eae9dac06c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:05 +0000
Subject: [PATCH 080/157] fix: emit the immediate and the lock prefix of bt,
 bts, btr and btc

---
 src/emit_inline_asm_block.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index b05c098..f334425 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -898,19 +898,21 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 u8 opcode = memonic_to_opcode[inst->memonic];
                 
                 if(rhs->state == EMIT_LOCATION_immediate){
+                    rhs->size = 1;
                     if(lhs->state == EMIT_LOCATION_loaded){
-                        emit_reg_extended_op(context, no_prefix(), two_byte_opcode(0xBA), REG_OPCODE, lhs);
+                        emit_reg_extended_op(context, user_prefixes, two_byte_opcode(0xBA), REG_OPCODE, lhs);
+                        emit(rhs->value);
                     }else{
                         assert(lhs->state == EMIT_LOCATION_register_relative);
-                        emit_register_relative_extended(context, no_prefix(), two_byte_opcode(0xBA), REG_OPCODE, lhs);
+                        emit_register_relative_immediate(context, user_prefixes, two_byte_opcode(0xBA), REG_OPCODE, lhs, rhs);
                     }
                 }else{
                     struct emit_location *loaded = emit_load_gpr(context, rhs);
                     if(lhs->state == EMIT_LOCATION_loaded){
-                        emit_register_register(context, no_prefix(), two_byte_opcode(opcode), /*reg*/loaded, /*regm*/lhs);
+                        emit_register_register(context, user_prefixes, two_byte_opcode(opcode), /*reg*/loaded, /*regm*/lhs);
                     }else{
                         assert(lhs->state == EMIT_LOCATION_register_relative);
-                        emit_register_relative_register(context, no_prefix(), two_byte_opcode(opcode), /*reg*/loaded->loaded_register, /*regm*/lhs);
+                        emit_register_relative_register(context, user_prefixes, two_byte_opcode(opcode), /*reg*/loaded->loaded_register, /*regm*/lhs);
                     }
                     if(loaded != rhs) free_emit_location(context, loaded);
                 }
-- 
2.43.0


From af2ea1c6de84021582646cb016651d8e46e1e4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:05 +0000
Subject: [PATCH 081/157] fix: haddps has an F2 prefix

---
 src/emit_inline_asm_block.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index f334425..3316e98 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -299,7 +299,7 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 [MEMONIC_divss] = ASM_PREFIX_SSE_float, [MEMONIC_divsd] = ASM_PREFIX_SSE_double, [MEMONIC_divps] = ASM_PREFIX_SSE_packed_float, [MEMONIC_divpd] = ASM_PREFIX_SSE_packed_double,
                 [MEMONIC_mulss] = ASM_PREFIX_SSE_float, [MEMONIC_mulsd] = ASM_PREFIX_SSE_double, [MEMONIC_mulps] = ASM_PREFIX_SSE_packed_float, [MEMONIC_mulpd] = ASM_PREFIX_SSE_packed_double,
                 
-                [MEMONIC_haddps] = ASM_PREFIX_SSE_packed_float, [MEMONIC_haddpd] = ASM_PREFIX_SSE_packed_double,
+                [MEMONIC_haddps] = ASM_PREFIX_SSE_double, [MEMONIC_haddpd] = ASM_PREFIX_SSE_packed_double,
                 
                 [MEMONIC_movmskps] = ASM_PREFIX_SSE_packed_float, [MEMONIC_movmskpd] = ASM_PREFIX_SSE_packed_double,
                 
-- 
2.43.0


From 3de6e2d4ee04bec79df77656bf792c1b5f95408f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:05 +0000
Subject: [PATCH 082/157] fix: movlpd and movhpd have a 66 prefix

---
 src/emit_inline_asm_block.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index 3316e98..3d315fc 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -321,6 +321,11 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 [MEMONIC_movq] = ASM_PREFIX_P_BIG,
                 [MEMONIC_movd] = ASM_PREFIX_P_BIG,
                 
+                [MEMONIC_movlps] = ASM_PREFIX_SSE_packed_float,
+                [MEMONIC_movlpd] = ASM_PREFIX_SSE_packed_double,
+                [MEMONIC_movhps] = ASM_PREFIX_SSE_packed_float,
+                [MEMONIC_movhpd] = ASM_PREFIX_SSE_packed_double,
+                
                 [MEMONIC_movups] = ASM_PREFIX_SSE_packed_float,
                 [MEMONIC_movupd] = ASM_PREFIX_SSE_packed_double,
                 
-- 
2.43.0


From 477d5518f6ddcbb1afaba45e7094d23b62c68bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:05 +0000
Subject: [PATCH 083/157] fix: movq of a 64-bit register into an xmm register
 was emitted as movd

---
 src/emit_inline_asm_block.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index 3d315fc..23e69ba 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -1312,7 +1312,7 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                     if(rhs->state == EMIT_LOCATION_register_relative){
                         emit_register_relative_register(context, prefix, two_byte_opcode(0x6E), loaded->loaded_register, rhs);
                     }else{
-                        emit_register_op__internal(context, prefix, two_byte_opcode(0x6E), loaded->loaded_register, rhs->loaded_register, lhs->size);
+                        emit_register_op__internal(context, prefix, two_byte_opcode(0x6E), loaded->loaded_register, rhs->loaded_register, rhs->size);
                     }
                     
                     if(loaded != lhs) emit_store(context, lhs, loaded);
-- 
2.43.0


From 41fd7cc1291dbff6c4b5c9403221b5b2705b53cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:05 +0000
Subject: [PATCH 084/157] fix: the source of movnti is a general purpose
 register

---
 src/emit_inline_asm_block.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index 23e69ba..cf3d196 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -1239,7 +1239,7 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
             
             case MEMONIC_movnti:{
                 assert(lhs->state == EMIT_LOCATION_register_relative);
-                struct emit_location *loaded = emit_load_float(context, rhs);
+                struct emit_location *loaded = emit_load_gpr(context, rhs);
                 emit_register_relative_register(context, no_prefix(), two_byte_opcode(0xc3), loaded->loaded_register, lhs);
                 if(loaded != rhs) free_emit_location(context, loaded);
             }break;
-- 
2.43.0


From 61788bbe735ae52e6ca9f065aa5f29bd84ada367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:05 +0000
Subject: [PATCH 085/157] fix: encode vblendps as VEX.66.0F3A 0C

---
 src/emit_inline_asm_block.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index cf3d196..788bcab 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -360,13 +360,13 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 [MEMONIC_pshufb]  = ASM_PREFIX_66,
                 
                 [MEMONIC_vshufps]  = ASM_PREFIX_VEX | ASM_PREFIX_SSE_packed_float,
-                [MEMONIC_vblendps] = ASM_PREFIX_VEX | ASM_PREFIX_SSE_packed_float,
                 [MEMONIC_vmulps]   = ASM_PREFIX_VEX | ASM_PREFIX_SSE_packed_float,
                 [MEMONIC_vaddps]   = ASM_PREFIX_VEX | ASM_PREFIX_SSE_packed_float,
                 [MEMONIC_vsubps]   = ASM_PREFIX_VEX | ASM_PREFIX_SSE_packed_float,
                 
                 // @hack: this is the middle byte of the opcode
                 [MEMONIC_vpshufb]     = 0x38,
+                [MEMONIC_vblendps]    = 0x3a,
                 [MEMONIC_vperm2f128]  = 0x3a,
                 [MEMONIC_vinsertf128] = 0x3a,
                 
@@ -519,8 +519,7 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 [MEMONIC_vpcmpeqb]    = 0x74,
                 [MEMONIC_vshufps]     = 0xc6,
                 
-                [MEMONIC_vblendps]    = 0x3A,
-                
+                [MEMONIC_vblendps]    = 0x0c,
                 [MEMONIC_vpshufb]     = 0x00,
                 [MEMONIC_vperm2f128]  = 0x06,
                 [MEMONIC_vinsertf128] = 0x18,
@@ -1335,7 +1334,7 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
             // 'op ymm1, ymm2, ymm3/m256, imm8' or 'op xmm1, xmm2, xmm3/m128, imm8'
             // 'op ymm1, ymm2, ymm3/m256'       or 'op xmm1, xmm2, xmm3/m128'
             case MEMONIC_vpsraq:
-            case MEMONIC_vshufps: case MEMONIC_vblendps:
+            case MEMONIC_vshufps:
             case MEMONIC_vpminub: case MEMONIC_vpxor: case MEMONIC_vpcmpeqb:
             case MEMONIC_vmulps: case MEMONIC_vaddps: case MEMONIC_vsubps:{
                 struct prefixes prefix = create_prefixes(memonic_to_prefix[inst->memonic]);
@@ -1364,6 +1363,7 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
             }break;
             
             case MEMONIC_vperm2f128: case MEMONIC_vinsertf128:
+            case MEMONIC_vblendps:
             case MEMONIC_vpshufb:{
                 // @hack: store the middle byte of the opcode in the prefix
                 struct prefixes prefix = create_prefixes(ASM_PREFIX_VEX | ASM_PREFIX_P_BIG);
-- 
2.43.0


From 7946b55155745e2f12721e4f3e151c5e83bb4d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:05 +0000
Subject: [PATCH 086/157] fix: rep movsd lost its rep prefix

---
 src/parse_asm_block.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parse_asm_block.c b/src/parse_asm_block.c
index 2576728..f323038 100644
--- a/src/parse_asm_block.c
+++ b/src/parse_asm_block.c
@@ -1728,7 +1728,9 @@ func struct asm_instruction *parse_asm_instruction(struct context *context){
             // In this case, just return the movsd here
             //
             
-            return push_asm_instruction(context, MEMONIC_movsd, 0, token);
+            struct asm_instruction *rep_movsd = push_asm_instruction(context, MEMONIC_movsd, 0, token);
+            rep_movsd->prefixes = context->current_asm_flags;
+            return rep_movsd;
         }
     }
     
-- 
2.43.0


From c0c67aadd44c0af45df5839cbf122b2a5fa4a4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:05 +0000
Subject: [PATCH 087/157] fix: scaled indices and negative displacements in asm
 memory operands

---
 src/parse_asm_block.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/parse_asm_block.c b/src/parse_asm_block.c
index f323038..ff8ff2d 100644
--- a/src/parse_asm_block.c
+++ b/src/parse_asm_block.c
@@ -1504,7 +1504,6 @@ func struct asm_operand asm_maybe_parse_memory_operand(struct context *context){
     enum asm_register index = -1;
     smm scale  = 1;
     smm offset = 0;
-    b32 offset_is_negative = false;
     
     b32 finished = false;
     
@@ -1516,10 +1515,8 @@ func struct asm_operand asm_maybe_parse_memory_operand(struct context *context){
             
             finished = (peek_token_eat(context, TOKEN_plus) == null);
             
-            if(finished && peek_token(context, TOKEN_minus)){
-                offset_is_negative = true;
-                goto skip_scale;
-            }
+            // @note: The '-' is a part of the offset expression.
+            if(finished && peek_token(context, TOKEN_minus)) goto skip_scale;
         }
     }
     
@@ -1533,7 +1530,8 @@ func struct asm_operand asm_maybe_parse_memory_operand(struct context *context){
                 scale = parse_base10_literal(context, scale_or_offset).value;
                 index = reg.reg;
                 
-                finished = peek_token_eat(context, TOKEN_plus) || peek_token_eat(context, TOKEN_minus);
+                // @note: A '-' is a part of the offset expression.
+                finished = !peek_token_eat(context, TOKEN_plus) && !peek_token(context, TOKEN_minus);
             }
         }else{
             prev_token(context);
@@ -1584,7 +1582,7 @@ func struct asm_operand asm_maybe_parse_memory_operand(struct context *context){
     arg.base   = base;
     arg.index  = index;
     arg.scale  = scale;
-    arg.offset = offset_is_negative ? -offset : offset;
+    arg.offset = offset;
     arg.size   = size;
     if(is_gs_relative) context->current_asm_flags |= ASM_PREFIX_gs;
     
-- 
2.43.0


From 89c8b5cc61251afbc061db53fb0e038b9296e6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:56 +0000
Subject: [PATCH 088/157] fix: encode memory operands with r12 and r13 as their
 base

---
 src/emit_x64.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index 9232693..ba2ec1c 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -1188,8 +1188,9 @@ func void emit_register_relative__internal(struct context *context, struct prefi
             mod = MODRM_REGM32;
         }else if(loc->offset != 0){
             mod = MODRM_REGM8;
-        }else if(base == REGISTER_BP){
+        }else if((base & 7) == REGISTER_BP){
             // We have to handle [rbp] as [rbp + 0] as 'base = RBP' and 'mod = MOD_REGM' means [rip + disp32].
+            // The same is true for [r13].
             // @cleanup: is this even supposed to happen?
             mod = MODRM_REGM8;
         }
@@ -1205,9 +1206,9 @@ func void emit_register_relative__internal(struct context *context, struct prefi
         emit(make_modrm(mod, other_reg & 0x7, REGISTER_SIB_EXTENSION));
         emit(make_sib(log_size, index & 0x7, base & 0x7));
     }else{
-        if(base == REGISTER_SIB_EXTENSION){
+        if((base & 7) == REGISTER_SIB_EXTENSION){ // rsp or r12
             emit(make_modrm(mod, other_reg & 0x7, REGISTER_SIB_EXTENSION));
-            emit(make_sib(mod, REGISTER_SP, base & 0x7));
+            emit(make_sib(0, REGISTER_SP, base & 0x7));
         }else{
             emit(make_modrm(mod, other_reg & 0x7, base & 0x7));
         }
-- 
2.43.0


From 02220baaedc9b26906ad4fe51eb0b622fbbec4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:56 +0000
Subject: [PATCH 089/157] fix: asm instructions with a memory operand and an
 immediate overwrote a register

---
 src/emit_inline_asm_block.c | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index 788bcab..4c96e94 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -634,7 +634,35 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 u8 OP_REG8_REGM8 = opcode_base + 2;
                 u8 OP_REG_REGM   = opcode_base + 3;
                 
-                if(lhs->state == EMIT_LOCATION_register_relative){
+                b32 has_immediate_form = (rhs->state == EMIT_LOCATION_immediate);
+                if(has_immediate_form && lhs->size == 8 && !((smm)rhs->value >= s32_min && (smm)rhs->value <= s32_max)){
+                    rhs->size = 8;
+                    has_immediate_form = false; // we have to load the immediate
+                }
+                
+                if(has_immediate_form){
+                    // op regm8,  imm8
+                    // op regm,   imm8 (sign-extended)
+                    // op regm16, imm16
+                    // op regm,   imm32 (sign-extended)
+                    u8 inst = REG_EXTENDED_OPCODE_REGM_IMMIDIATE;
+                    rhs->size = (lhs->size == 2) ? 2 : 4;
+                    
+                    if(lhs->size == 1){
+                        inst = REG_EXTENDED_OPCODE_REGM8_IMMIDIATE8;
+                        rhs->size = 1;
+                    }else if((smm)rhs->value >= s8_min && (smm)rhs->value <= s8_max){
+                        inst = REG_EXTENDED_OPCODE_REGM_SIGN_EXTENDED_IMMIDIATE8;
+                        rhs->size = 1;
+                    }
+                    
+                    if(lhs->state == EMIT_LOCATION_register_relative){
+                        emit_register_relative_immediate(context, user_prefixes, one_byte_opcode(inst), REG_OPCODE, lhs, rhs);
+                    }else{
+                        emit_reg_extended_op(context, user_prefixes, one_byte_opcode(inst), REG_OPCODE, lhs);
+                        emit_bytes(context, rhs->size, rhs->value);
+                    }
+                }else if(lhs->state == EMIT_LOCATION_register_relative){
                     struct emit_location *loaded = emit_load_gpr(context, rhs);
                     
                     loaded->prevent_freeing += 1;
-- 
2.43.0


From 6aed703b70d35f8e63ee2dbb86353475ff97d05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:56 +0000
Subject: [PATCH 090/157] fix: the displacement of rip-relative asm operands
 ignored a following immediate

---
 src/emit_inline_asm_block.c | 68 ++++++++++++++++++++++---------------
 1 file changed, 40 insertions(+), 28 deletions(-)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index 4c96e94..8a99fc3 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -978,18 +978,18 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 struct prefixes prefix = create_prefixes(memonic_to_prefix[inst->memonic]);
                 struct opcode opcode = two_byte_opcode(0xc2);
                 
+                u8 predicate = (inst->memonic - MEMONIC_cmpeqps) & 7;
+                if(operands[2]){
+                    assert(operands[2]->state == EMIT_LOCATION_immediate);
+                    predicate = (u8)operands[2]->value;
+                }
+                
                 if(rhs->state == EMIT_LOCATION_loaded){
                     emit_register_register(context, prefix, opcode, loaded, rhs);
+                    emit(predicate);
                 }else{
                     assert(rhs->state == EMIT_LOCATION_register_relative);
-                    emit_register_relative_register(context, prefix, opcode, loaded->loaded_register, rhs);
-                }
-                
-                if(operands[2]){
-                    assert(operands[2]->state == EMIT_LOCATION_immediate);
-                    emit((u8)operands[2]->value);
-                }else{
-                    emit((inst->memonic - MEMONIC_cmpeqps) & 7);
+                    emit_register_relative_immediate(context, prefix, opcode, loaded->loaded_register, rhs, emit_location_immediate(context, predicate, 1));
                 }
                 
                 if(loaded != lhs) emit_store(context, lhs, loaded);
@@ -1175,14 +1175,17 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 struct prefixes prefix = create_prefixes(memonic_to_prefix[inst->memonic]);
                 struct opcode opcode = two_byte_opcode(memonic_to_opcode[inst->memonic]);
                 
+                // @note: The immediate has to be part of the instruction, if 'rhs' is rip-relative the displacement is relative to the end of the instruction.
+                assert(operands[2]->state == EMIT_LOCATION_immediate);
+                operands[2]->size = 1;
+                
                 if(rhs->state == EMIT_LOCATION_register_relative){
-                    emit_register_relative_register(context, prefix, opcode, loaded->loaded_register, rhs);
+                    emit_register_relative_immediate(context, prefix, opcode, loaded->loaded_register, rhs, operands[2]);
                 }else{
                     assert(rhs->state == EMIT_LOCATION_loaded);
                     emit_register_register(context, prefix, opcode, loaded, rhs);
+                    emit(operands[2]->value);
                 }
-                assert(operands[2]->state == EMIT_LOCATION_immediate);
-                emit(operands[2]->value);
                 
                 if(loaded != lhs) emit_store(context, lhs, loaded);
             }break;
@@ -1196,14 +1199,17 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 struct prefixes prefix = create_prefixes(ASM_PREFIX_P_BIG);
                 struct opcode   opcode = three_byte_opcode(0x3a, memonic_to_opcode[inst->memonic]);
                 
+                // @note: The immediate has to be part of the instruction, if 'rhs' is rip-relative the displacement is relative to the end of the instruction.
+                assert(operands[2]->state == EMIT_LOCATION_immediate);
+                operands[2]->size = 1;
+                
                 if(rhs->state == EMIT_LOCATION_register_relative){
-                    emit_register_relative_register(context, prefix, opcode, loaded->loaded_register, rhs);
+                    emit_register_relative_immediate(context, prefix, opcode, loaded->loaded_register, rhs, operands[2]);
                 }else{
                     assert(rhs->state == EMIT_LOCATION_loaded);
                     emit_register_register(context, prefix, opcode, loaded, rhs);
+                    emit(operands[2]->value);
                 }
-                assert(operands[2]->state == EMIT_LOCATION_immediate);
-                emit(operands[2]->value);
                 
                 if(loaded != lhs) emit_store(context, lhs, loaded);
             }break;
@@ -1284,12 +1290,13 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 struct opcode   opcode = three_byte_opcode(0x3A, memonic_to_opcode[inst->memonic]);
                 
                 if(lhs->state == EMIT_LOCATION_register_relative){
-                    emit_register_relative_register(context, prefix, opcode, loaded->loaded_register, lhs);
+                    operands[2]->size = 1;
+                    emit_register_relative_immediate(context, prefix, opcode, loaded->loaded_register, lhs, operands[2]);
                 }else{
                     assert(lhs->state == EMIT_LOCATION_loaded);
                     emit_register_op__internal(context, prefix, opcode, loaded->loaded_register, lhs->loaded_register, lhs->size);
+                    emit(operands[2]->value);
                 }
-                emit(operands[2]->value);
                 
                 if(rhs != loaded) free_emit_location(context, loaded);
             }break;
@@ -1304,12 +1311,13 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 }
                 
                 if(rhs->state == EMIT_LOCATION_register_relative){
-                    emit_register_relative_register(context, prefix, opcode, loaded->loaded_register, rhs);
+                    operands[2]->size = 1;
+                    emit_register_relative_immediate(context, prefix, opcode, loaded->loaded_register, rhs, operands[2]);
                 }else{
                     assert(rhs->state == EMIT_LOCATION_loaded);
                     emit_register_op__internal(context, prefix, opcode, loaded->loaded_register, rhs->loaded_register, rhs->size);
+                    emit(operands[2]->value);
                 }
-                emit(operands[2]->value);
                 
                 if(loaded != lhs) emit_store(context, lhs, loaded);
             }break;
@@ -1376,14 +1384,16 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 struct emit_location *vex = emit_load_float(context, operands[1]);
                 prefix.vex_register = vex->loaded_register;
                 
+                if(operands[3]){
+                    assert(operands[3]->state == EMIT_LOCATION_immediate);
+                    operands[3]->size = 1;
+                }
+                
                 if(operands[2]->state == EMIT_LOCATION_register_relative){
-                    emit_register_relative_register(context, prefix, opcode, first->loaded_register, operands[2]);
+                    emit_register_relative__internal(context, prefix, opcode, first->loaded_register, operands[2], operands[3]);
                 }else{
                     emit_register_op__internal(context, prefix, opcode, first->loaded_register, operands[2]->loaded_register, operands[0]->size);
-                }
-                if(operands[3]){
-                    assert(operands[3]->state == EMIT_LOCATION_immediate);
-                    emit(operands[3]->value);
+                    if(operands[3]) emit(operands[3]->value);
                 }
                 
                 if(vex   != operands[1]) free_emit_location(context, vex);
@@ -1403,14 +1413,16 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 struct emit_location *vex = emit_load_float(context, operands[1]);
                 prefix.vex_register = vex->loaded_register;
                 
+                if(operands[3]){
+                    assert(operands[3]->state == EMIT_LOCATION_immediate);
+                    operands[3]->size = 1;
+                }
+                
                 if(operands[2]->state == EMIT_LOCATION_register_relative){
-                    emit_register_relative_register(context, prefix, opcode, first->loaded_register, operands[2]);
+                    emit_register_relative__internal(context, prefix, opcode, first->loaded_register, operands[2], operands[3]);
                 }else{
                     emit_register_op__internal(context, prefix, opcode, first->loaded_register, operands[2]->loaded_register, operands[0]->size);
-                }
-                if(operands[3]){
-                    assert(operands[3]->state == EMIT_LOCATION_immediate);
-                    emit(operands[3]->value);
+                    if(operands[3]) emit(operands[3]->value);
                 }
                 
                 if(vex   != operands[1]) free_emit_location(context, vex);
-- 
2.43.0


From fdbcd9c78e834605cae0fe59f3183732502e7637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:56 +0000
Subject: [PATCH 091/157] fix: 8-bit shifts and rotates by cl of a register
 used the 32-bit opcode

---
 src/emit_x64.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index ba2ec1c..7f1b196 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -2269,7 +2269,9 @@ func struct emit_location *emit_shift_or_rotate__internal(struct context *contex
             ret = lhs_loc;
         }else{
             struct emit_location *lhs = emit_load_gpr(context, lhs_loc);
-            emit_reg_extended_op(context, prefixes, one_byte_opcode(SHIFT_OR_ROTATE_REGM_CL), reg_extension, lhs);
+            u8 inst = SHIFT_OR_ROTATE_REGM_CL;
+            if(lhs->size == 1) inst = SHIFT_OR_ROTATE_REGM8_CL;
+            emit_reg_extended_op(context, prefixes, one_byte_opcode(inst), reg_extension, lhs);
             lhs->size = size; // truncate it
             ret = lhs;
         }
-- 
2.43.0


From f8aa8ee9545c73e1f074268f497b30045c12e5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:18 +0000
Subject: [PATCH 092/157] fix: emit a rex prefix for spl, bpl, sil and dil in
 inline assembly

---
 src/emit_inline_asm_block.c |  7 ++++++-
 src/emit_x64.c              | 15 +++++++++++++++
 src/parse_asm_block.c       |  1 +
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index 8a99fc3..f4b4148 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -569,6 +569,7 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                         
                         u8 rex = 0;
                         if(lhs->size == 8) rex |= REXW;
+                        if(register_needs_rex_prefix(lhs->loaded_register, lhs->size)) rex |= REX;
                         if(register_is_extended(lhs->loaded_register)) rex |= REXB;
                         if(rex) emit(rex); // this decides wheter 32 or 64 bits in this case
                         
@@ -596,10 +597,14 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 
                 u8 base_opcode = (inst->memonic == MEMONIC_movsx) ? MOVE_WITH_SIGN_EXTENSION_REG_REGM8 : MOVE_WITH_ZERO_EXTENSION_REG_REGM8;
                 struct opcode opcode = (rhs->size == 1) ? two_byte_opcode(base_opcode) : two_byte_opcode(base_opcode + 1);
+                
+                struct prefixes rex = no_prefix();
+                if(rhs->state == EMIT_LOCATION_loaded && register_needs_rex_prefix(rhs->loaded_register, rhs->size)) rex.legacy_prefixes |= ASM_PREFIX_REX;
+                
                 rhs->size = loaded->size;
                 
                 if(rhs->state == EMIT_LOCATION_loaded){
-                    emit_register_register(context, no_prefix(), opcode, loaded, rhs);
+                    emit_register_register(context, rex, opcode, loaded, rhs);
                 }else{
                     emit_register_relative_register(context, no_prefix(), opcode, loaded->loaded_register, rhs);
                 }
diff --git a/src/emit_x64.c b/src/emit_x64.c
index 7f1b196..3eb2138 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -16,6 +16,7 @@
 //                                                                -12.09.2020
 
 enum rex_encoding{
+    REX  = 0x40, // allows the use of the 8-bit registers spl, bpl, sil and dil
     REXB = 0x41, // makes the modrm 'regm' field into an exteded register (r8 - r15) and some other stuff
     REXX = 0x42, // makes the sib 'index' field into an exteded register (r8 - r15)
     REXR = 0x44, // makes the modrm 'reg' field into an exteded register (r8 - r15)
@@ -631,6 +632,7 @@ func void emit_prefixes_and_opcode(struct context *context, struct prefixes _pre
         if(prefixes & ASM_PREFIX_67) emit(0x67);
         
         u8 rex = 0;
+        if(prefixes & ASM_PREFIX_REX) rex |= REX;
         if(size == 8) rex |= REXW;
         if(register_is_extended(reg))  rex |= REXR;
         if(register_is_extended(regm)) rex |= REXB;
@@ -1136,9 +1138,16 @@ func void emit_register_op__internal(struct context *context, struct prefixes pr
     emit(make_modrm(MODRM_REG, reg & 7, regm & 7));
 }
 
+// Without a rex-prefix the encodings 4, 5, 6 and 7 of an 8-bit register mean 'ah', 'ch', 'dh' and 'bh' instead of 'spl', 'bpl', 'sil' and 'dil'.
+func b32 register_needs_rex_prefix(enum register_encoding reg, smm size){
+    return size == 1 && REGISTER_SP <= reg && reg <= REGISTER_DI;
+}
+
 func void emit_reg_extended_op(struct context *context, struct prefixes prefixes, struct opcode opcode, u8 extension, struct emit_location *loaded){
     assert(loaded->state == EMIT_LOCATION_loaded);
     
+    if(loaded->register_kind == REGISTER_KIND_gpr && register_needs_rex_prefix(loaded->loaded_register, loaded->size)) prefixes.legacy_prefixes |= ASM_PREFIX_REX;
+    
     emit_register_op__internal(context, prefixes, opcode, extension, loaded->loaded_register, loaded->size);
 }
 
@@ -1154,6 +1163,10 @@ func void emit_register_register(struct context *context, struct prefixes prefix
     enum register_encoding reg  = _reg->loaded_register;
     enum register_encoding regm = _regm->loaded_register;
     
+    if(_reg->register_kind == REGISTER_KIND_gpr){
+        if(register_needs_rex_prefix(reg, _reg->size) || register_needs_rex_prefix(regm, _regm->size)) prefixes.legacy_prefixes |= ASM_PREFIX_REX;
+    }
+    
     emit_register_op__internal(context, prefixes, opcode, reg, regm, _reg->size);
 }
 
@@ -1250,6 +1263,8 @@ func void emit_register_relative__internal(struct context *context, struct prefi
 //    1) 'op [base + scale * index + offset], register'
 //    2) 'op register, [base + scale * index + offset]'
 func void emit_register_relative_register(struct context *context, struct prefixes prefixes, struct opcode opcode, enum register_encoding other_reg, struct emit_location *loc){
+    if(register_needs_rex_prefix(other_reg, loc->size)) prefixes.legacy_prefixes |= ASM_PREFIX_REX;
+    
     emit_register_relative__internal(context, prefixes, opcode, other_reg, loc, null);
 }
 
diff --git a/src/parse_asm_block.c b/src/parse_asm_block.c
index ff8ff2d..0d55a01 100644
--- a/src/parse_asm_block.c
+++ b/src/parse_asm_block.c
@@ -26,6 +26,7 @@ enum legacy_prefixes{
     ASM_PREFIX_P_BIG                = ASM_PREFIX_66, // A p* function (padd, por, punpcklbw, ...) which is 128 bit.
     
     ASM_PREFIX_VEX = 0x100,
+    ASM_PREFIX_REX = 0x200, // emit a rex-prefix, even if it is empty
 };
 
 struct prefixes{
-- 
2.43.0


From 3371bff583bdf1b50a6307d95623fc47ac93bb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:34 +0000
Subject: [PATCH 093/157] fix: emit the address size override for 32-bit
 registers in asm memory operands

---
 src/emit_inline_asm_block.c |  2 +-
 src/emit_x64.c              | 10 +++++++---
 src/parse_asm_block.c       |  6 +++++-
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index f4b4148..912435d 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -178,7 +178,7 @@ func struct emit_location *_asm_block_resolve_and_allocate_operand(struct contex
                 case 8: ret->log_index_scale = 3; break;
             }
             
-            ret->inline_asm__is_gs_relative = (instruction->prefixes & ASM_PREFIX_gs) != 0;
+            ret->inline_asm__prefixes = instruction->prefixes & (ASM_PREFIX_gs | ASM_PREFIX_67);
             
             return ret;
         }break;
diff --git a/src/emit_x64.c b/src/emit_x64.c
index 3eb2138..ccd6b4e 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -580,6 +580,10 @@ func void emit_prefixes_and_opcode(struct context *context, struct prefixes _pre
     enum legacy_prefixes prefixes = _prefixes.legacy_prefixes;
     
     if(prefixes & ASM_PREFIX_VEX){
+        if(prefixes & ASM_PREFIX_65) emit(0x65);
+        if(prefixes & ASM_PREFIX_67) emit(0x67);
+        prefixes &= ~(ASM_PREFIX_65 | ASM_PREFIX_67);
+        
         b32 is_three_byte = false;
         if(register_is_extended(regm) || (index >= 0  && register_is_extended(index))) is_three_byte = true;
         
@@ -766,7 +770,7 @@ struct emit_location{
             smm log_index_scale;
             smm offset;
             struct ir *ir; // rip_relative iff (ast != null)
-            b32 inline_asm__is_gs_relative;
+            enum legacy_prefixes inline_asm__prefixes; // segment and address size override
         }; // register_relative & rip_relative
     };
 };
@@ -819,7 +823,7 @@ func struct emit_location *emit_location_register_relative__internal(struct cont
     ret->log_index_scale = 0; // @note: this is almost never used, thus we set it specifically if we need it...
     ret->offset = offset;
     ret->ir = ir;
-    ret->inline_asm__is_gs_relative = 0;
+    ret->inline_asm__prefixes = ASM_PREFIX_none;
     
     return ret;
 }
@@ -1183,7 +1187,7 @@ func void emit_register_relative__internal(struct context *context, struct prefi
     assert(loc->base->state == EMIT_LOCATION_loaded);
     assert(!loc->index || loc->index->state == EMIT_LOCATION_loaded);
     
-    if(loc->inline_asm__is_gs_relative) prefixes.legacy_prefixes |= ASM_PREFIX_gs;
+    prefixes.legacy_prefixes |= loc->inline_asm__prefixes;
     
     enum register_encoding base =  loc->base->loaded_register;
     enum register_encoding index = loc->index ? loc->index->loaded_register : INVALID_REGISTER;
diff --git a/src/parse_asm_block.c b/src/parse_asm_block.c
index 0d55a01..660d3d8 100644
--- a/src/parse_asm_block.c
+++ b/src/parse_asm_block.c
@@ -1505,6 +1505,7 @@ func struct asm_operand asm_maybe_parse_memory_operand(struct context *context){
     enum asm_register index = -1;
     smm scale  = 1;
     smm offset = 0;
+    b32 is_32_bit_address = false;
     
     b32 finished = false;
     
@@ -1513,6 +1514,7 @@ func struct asm_operand asm_maybe_parse_memory_operand(struct context *context){
         struct asm_operand reg = asm_maybe_parse_gpr(context);
         if(reg.kind != ASM_ARG_invalid){
             base = reg.reg;
+            if(reg.size == 4) is_32_bit_address = true;
             
             finished = (peek_token_eat(context, TOKEN_plus) == null);
             
@@ -1530,6 +1532,7 @@ func struct asm_operand asm_maybe_parse_memory_operand(struct context *context){
             }else{
                 scale = parse_base10_literal(context, scale_or_offset).value;
                 index = reg.reg;
+                if(reg.size == 4) is_32_bit_address = true;
                 
                 // @note: A '-' is a part of the offset expression.
                 finished = !peek_token_eat(context, TOKEN_plus) && !peek_token(context, TOKEN_minus);
@@ -1585,7 +1588,8 @@ func struct asm_operand asm_maybe_parse_memory_operand(struct context *context){
     arg.scale  = scale;
     arg.offset = offset;
     arg.size   = size;
-    if(is_gs_relative) context->current_asm_flags |= ASM_PREFIX_gs;
+    if(is_gs_relative)    context->current_asm_flags |= ASM_PREFIX_gs;
+    if(is_32_bit_address) context->current_asm_flags |= ASM_PREFIX_67;
     
     return arg;
 }
-- 
2.43.0


From a776e145d2779aa2c275c49d5e0ee44424f3b98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:30 +0000
Subject: [PATCH 094/157] fix: _mm_cmpgt, _mm_cmpge, _mm_cmpngt and _mm_cmpnge
 of NaNs

---
 implicit/include/intrinsic.c | 88 +++++++++++++++++++++++-------------
 1 file changed, 56 insertions(+), 32 deletions(-)

diff --git a/implicit/include/intrinsic.c b/implicit/include/intrinsic.c
index 9455367..095f1e3 100644
--- a/implicit/include/intrinsic.c
+++ b/implicit/include/intrinsic.c
@@ -1339,22 +1339,28 @@ __declspec(inline_asm) __m128 _mm_cmpeq_ss(__m128 a, __m128 b){
 
 
 __declspec(inline_asm) __m128 _mm_cmpge_ps(__m128 a, __m128 b){
-    cmpgeps a, b
-    return a
+    cmpleps b, a
+    return b
 }
 __declspec(inline_asm) __m128 _mm_cmpge_ss(__m128 a, __m128 b){
-    cmpgess a, b
-    return a
+    movups xmm0, a
+    movups xmm1, b
+    cmpless xmm1, xmm0
+    movss xmm0, xmm1
+    return xmm0
 }
 
 
 __declspec(inline_asm) __m128 _mm_cmpgt_ps(__m128 a, __m128 b){
-    cmpgtps a, b
-    return a
+    cmpltps b, a
+    return b
 }
 __declspec(inline_asm) __m128 _mm_cmpgt_ss(__m128 a, __m128 b){
-    cmpgtss a, b
-    return a
+    movups xmm0, a
+    movups xmm1, b
+    cmpltss xmm1, xmm0
+    movss xmm0, xmm1
+    return xmm0
 }
 
 
@@ -1389,22 +1395,28 @@ __declspec(inline_asm) __m128 _mm_cmpneq_ss(__m128 a, __m128 b){
 
 
 __declspec(inline_asm) __m128 _mm_cmpnge_ps(__m128 a, __m128 b){
-    cmpngeps a, b
-    return a
+    cmpnleps b, a
+    return b
 }
 __declspec(inline_asm) __m128 _mm_cmpnge_ss(__m128 a, __m128 b){
-    cmpngess a, b
-    return a
+    movups xmm0, a
+    movups xmm1, b
+    cmpnless xmm1, xmm0
+    movss xmm0, xmm1
+    return xmm0
 }
 
 
 __declspec(inline_asm) __m128 _mm_cmpngt_ps(__m128 a, __m128 b){
-    cmpngtps a, b
-    return a
+    cmpnltps b, a
+    return b
 }
 __declspec(inline_asm) __m128 _mm_cmpngt_ss(__m128 a, __m128 b){
-    cmpngtss a, b
-    return a
+    movups xmm0, a
+    movups xmm1, b
+    cmpnltss xmm1, xmm0
+    movss xmm0, xmm1
+    return xmm0
 }
 
 
@@ -2008,13 +2020,16 @@ __declspec(inline_asm) __m128d _mm_cmpeq_sd(__m128d a, __m128d b){
 }
 
 __declspec(inline_asm) __m128d _mm_cmpge_pd(__m128d a, __m128d b){
-    cmpgepd a, b
-    return a
+    cmplepd b, a
+    return b
 }
 
 __declspec(inline_asm) __m128d _mm_cmpge_sd(__m128d a, __m128d b){
-    cmpgesd a, b
-    return a
+    movups xmm0, a
+    movups xmm1, b
+    cmplesd xmm1, xmm0
+    movsd xmm0, xmm1
+    return xmm0
 }
 
 
@@ -2034,13 +2049,16 @@ __declspec(inline_asm) __m128i _mm_cmpgt_epi32(__m128i a, __m128i b){
 }
 
 __declspec(inline_asm) __m128d _mm_cmpgt_pd(__m128d a, __m128d b){
-    cmpgtpd a, b
-    return a
+    cmpltpd b, a
+    return b
 }
 
 __declspec(inline_asm) __m128d _mm_cmpgt_sd(__m128d a, __m128d b){
-    cmpgtsd a, b
-    return a
+    movups xmm0, a
+    movups xmm1, b
+    cmpltsd xmm1, xmm0
+    movsd xmm0, xmm1
+    return xmm0
 }
 
 __declspec(inline_asm) __m128d _mm_cmple_pd(__m128d a, __m128d b){
@@ -2089,24 +2107,30 @@ __declspec(inline_asm) __m128d _mm_cmpneq_sd(__m128d a, __m128d b){
 }
 
 __declspec(inline_asm) __m128d _mm_cmpnge_pd(__m128d a, __m128d b){
-    cmpngepd a, b
-    return a
+    cmpnlepd b, a
+    return b
 }
 
 
 __declspec(inline_asm) __m128d _mm_cmpnge_sd(__m128d a, __m128d b){
-    cmpngesd a, b
-    return a
+    movups xmm0, a
+    movups xmm1, b
+    cmpnlesd xmm1, xmm0
+    movsd xmm0, xmm1
+    return xmm0
 }
 
 __declspec(inline_asm) __m128d _mm_cmpngt_pd(__m128d a, __m128d b){
-    cmpngtpd a, b
-    return a
+    cmpnltpd b, a
+    return b
 }
 
 __declspec(inline_asm) __m128d _mm_cmpngt_sd(__m128d a, __m128d b){
-    cmpngtsd a, b
-    return a
+    movups xmm0, a
+    movups xmm1, b
+    cmpnltsd xmm1, xmm0
+    movsd xmm0, xmm1
+    return xmm0
 }
 
 __declspec(inline_asm) __m128d _mm_cmpnle_pd(__m128d a, __m128d b){
-- 
2.43.0


From 6c7d313060f33d78a61ab6f3140bc0ad47631bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:30 +0000
Subject: [PATCH 095/157] fix: _mm_ucomieq_ss and _mm_ucomineq_ss returned the
 value of an unrelated register

---
 implicit/include/intrinsic.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/implicit/include/intrinsic.c b/implicit/include/intrinsic.c
index 095f1e3..4f5af34 100644
--- a/implicit/include/intrinsic.c
+++ b/implicit/include/intrinsic.c
@@ -1808,7 +1808,7 @@ __declspec(inline_asm) __m128 _mm_sub_ss(__m128 a, __m128 b){
 __declspec(inline_asm) int _mm_ucomieq_ss(__m128 a, __m128 b){
     cmpeqss a, b
     
-    movd eax, xmm0
+    movd eax, a
     and  eax, 1
     return eax
 }
@@ -1847,7 +1847,7 @@ __declspec(inline_asm) int _mm_ucomilt_ss(__m128 a, __m128 b){
 __declspec(inline_asm) int _mm_ucomineq_ss(__m128 a, __m128 b){
     cmpneqss a, b
     
-    movd eax, xmm0
+    movd eax, a
     and eax, 1
     return eax
 }
-- 
2.43.0


From f313948d8ca0c688cda1c4741e3b812aacd7bdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:30 +0000
Subject: [PATCH 096/157] fix: _mm_ucomile_ss swapped its arguments

---
 implicit/include/intrinsic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/include/intrinsic.c b/implicit/include/intrinsic.c
index 4f5af34..8bbb10e 100644
--- a/implicit/include/intrinsic.c
+++ b/implicit/include/intrinsic.c
@@ -1827,7 +1827,7 @@ __declspec(inline_asm) int _mm_ucomigt_ss(__m128 a, __m128 b){
     
     return eax
 }
-__declspec(inline_asm) int _mm_ucomile_ss(__m128 b, __m128 a){
+__declspec(inline_asm) int _mm_ucomile_ss(__m128 a, __m128 b){
     ucomiss b, a
     
     setae al
-- 
2.43.0


From 8cfed1f8e35313e725514a616bd456dc2353e812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:30 +0000
Subject: [PATCH 097/157] fix: _mm_load_pd1, _mm_loadr_pd and _mm_store_pd1

---
 implicit/include/intrinsic.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/implicit/include/intrinsic.c b/implicit/include/intrinsic.c
index 8bbb10e..f21aa7d 100644
--- a/implicit/include/intrinsic.c
+++ b/implicit/include/intrinsic.c
@@ -2390,6 +2390,7 @@ __declspec(inline_asm) __m128d _mm_load_pd(double const* mem_addr){
 
 __declspec(inline_asm) __m128d _mm_load_pd1(double const* mem_addr){
     movsd xmm0, qword ptr [mem_addr]
+    shufpd xmm0, xmm0, 0
     return xmm0
 }
 
@@ -2437,7 +2438,8 @@ __declspec(inline_asm) __m128 _mm_loadl_pi(__m128 a, __m64 const* mem_addr){
 }
 
 __declspec(inline_asm) __m128d _mm_loadr_pd(double const* mem_addr){
-    shufpd xmm0, xmmword ptr [mem_addr], 1
+    movups xmm0, xmmword ptr [mem_addr]
+    shufpd xmm0, xmm0, 1
     return xmm0
 }
 
@@ -2955,7 +2957,7 @@ __declspec(inline_asm) void _mm_store_pd(double *mem_addr, __m128d a){
 
 
 __declspec(inline_asm) void _mm_store_pd1(double* mem_addr, __m128d a){
-    shufps a, a, 0
+    shufpd a, a, 0
     movups xmmword ptr[mem_addr], a
 }
 
-- 
2.43.0


From ce34a80ddcc42c1cf87091f2d7f5b68f4bca4d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:30 +0000
Subject: [PATCH 098/157] fix: _mm_cmpestrc swapped its strings

---
 implicit/include/intrinsic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/include/intrinsic.c b/implicit/include/intrinsic.c
index f21aa7d..f0b02eb 100644
--- a/implicit/include/intrinsic.c
+++ b/implicit/include/intrinsic.c
@@ -3319,7 +3319,7 @@ __declspec(inline_asm) int _mm_cmpestrc(__m128i a, int la, __m128i b, int lb, co
     // "Perform a packed comparison of string data with explicit lengths,
     //  generating an index, and storing the result in ECX."
     // "CFlag - Reset if IntRes2 is equal to zero, set otherwise."
-    pcmpestri xmm1, xmm0, imm8
+    pcmpestri xmm0, xmm1, imm8
     
     // "returns 1 if the resulting mask was non-zero, and 0 otherwise."
     mov     eax, 0
-- 
2.43.0


From 669e4e60a9c6bb6f7bc45455b0681fa1da33a6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:30 +0000
Subject: [PATCH 099/157] fix: __cpuid and __cpuidex did not preserve rbx

---
 implicit/include/intrinsic.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/implicit/include/intrinsic.c b/implicit/include/intrinsic.c
index f0b02eb..51d3672 100644
--- a/implicit/include/intrinsic.c
+++ b/implicit/include/intrinsic.c
@@ -639,6 +639,9 @@ __declspec(inline_asm) void __cpuidex(int cpuInfo[4], int function_id, int subfu
 
 __declspec(inline_asm) void __cpuid(int cpuInfo[4], int function_id){
     mov eax, function_id
+    
+    // rbx is non-volatile, hence we have to preserve it.
+    mov r9, rbx
     cpuid
     
     mov r8, cpuInfo
@@ -646,12 +649,17 @@ __declspec(inline_asm) void __cpuid(int cpuInfo[4], int function_id){
     mov [r8 +  4], ebx
     mov [r8 +  8], ecx
     mov [r8 + 12], edx
+    
+    mov rbx, r9
 }
 
 
 __declspec(inline_asm) void __cpuidex(int cpuInfo[4], int function_id, int subfunction_id){
     mov eax, function_id
     mov ecx, subfunction_id
+    
+    // rbx is non-volatile, hence we have to preserve it.
+    mov r9, rbx
     cpuid
     
     mov r8, cpuInfo
@@ -659,6 +667,8 @@ __declspec(inline_asm) void __cpuidex(int cpuInfo[4], int function_id, int subfu
     mov [r8 +  4], ebx
     mov [r8 +  8], ecx
     mov [r8 + 12], edx
+    
+    mov rbx, r9
 }
 #endif
 
-- 
2.43.0


From 01f606b763084aba757ad91a727c65d773664e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:30 +0000
Subject: [PATCH 100/157] fix: _bittest and its variants with a constant index
 outside of the first word

---
 implicit/include/intrinsic.c | 32 ++++++++++++++++++++++++--------
 src/emit_x64.c               |  6 +++---
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/implicit/include/intrinsic.c b/implicit/include/intrinsic.c
index 51d3672..0bfdcf5 100644
--- a/implicit/include/intrinsic.c
+++ b/implicit/include/intrinsic.c
@@ -45,7 +45,9 @@
 
 __declspec(inline_asm) unsigned __int8 _bittest(__int32 *to_test, __int32 bit_index){
     // stores the bit at 'bit_index' and stores it in CF
-    bt [to_test], bit_index
+    // The immediate form only uses the lowest bits of the index.
+    mov edx, bit_index
+    bt [to_test], edx
     
     setc al
     return al
@@ -53,7 +55,9 @@ __declspec(inline_asm) unsigned __int8 _bittest(__int32 *to_test, __int32 bit_in
 
 __declspec(inline_asm) unsigned __int8 _bittest64(__int64 *to_test, __int64 bit_index){
     // stores the bit at 'bit_index' and stores it in CF
-    bt [to_test], bit_index
+    // The immediate form only uses the lowest bits of the index.
+    mov rdx, bit_index
+    bt [to_test], rdx
     
     setc al
     return al
@@ -61,14 +65,18 @@ __declspec(inline_asm) unsigned __int8 _bittest64(__int64 *to_test, __int64 bit_
 
 
 __declspec(inline_asm) unsigned __int8 _bittestandcomplement(__int32 *to_test, __int32 bit_index){
-    btc [to_test], bit_index
+    // The immediate form only uses the lowest bits of the index.
+    mov edx, bit_index
+    btc [to_test], edx
     
     setc al
     return al
 }
 
 __declspec(inline_asm) unsigned __int8 _bittestandcomplement64(__int64 *to_test, __int64 bit_index){
-    btc [to_test], bit_index
+    // The immediate form only uses the lowest bits of the index.
+    mov rdx, bit_index
+    btc [to_test], rdx
     
     setc al
     return al
@@ -77,7 +85,9 @@ __declspec(inline_asm) unsigned __int8 _bittestandcomplement64(__int64 *to_test,
 
 __declspec(inline_asm) unsigned __int8 _bittestandreset(__int32 *to_test, __int32 bit_index){
     // stores the bit at 'bit_index'(< 32) and stores it in CF
-    btr [to_test], bit_index
+    // The immediate form only uses the lowest bits of the index.
+    mov edx, bit_index
+    btr [to_test], edx
     setc al
     
     return al
@@ -85,7 +95,9 @@ __declspec(inline_asm) unsigned __int8 _bittestandreset(__int32 *to_test, __int3
 
 __declspec(inline_asm) unsigned __int8 _bittestandreset64(__int64 *to_test, __int64 bit_index){
     // stores the bit at 'bit_index'(< 62) and stores it in CF
-    btr [to_test], bit_index
+    // The immediate form only uses the lowest bits of the index.
+    mov rdx, bit_index
+    btr [to_test], rdx
     
     setc al
     return al
@@ -94,7 +106,9 @@ __declspec(inline_asm) unsigned __int8 _bittestandreset64(__int64 *to_test, __in
 
 __declspec(inline_asm) unsigned __int8 _bittestandset(__int32 *to_test, __int32 bit_index){
     // stores the bit at 'bit_index'(< 32) and stores it in CF
-    bts [to_test], bit_index
+    // The immediate form only uses the lowest bits of the index.
+    mov edx, bit_index
+    bts [to_test], edx
     
     setc al
     return al
@@ -102,7 +116,9 @@ __declspec(inline_asm) unsigned __int8 _bittestandset(__int32 *to_test, __int32
 
 __declspec(inline_asm) unsigned __int8 _bittestandset64(__int64 *to_test, __int64 bit_index){
     // stores the bit at 'bit_index'(< 62) and stores it in CF
-    bts [to_test], bit_index
+    // The immediate form only uses the lowest bits of the index.
+    mov rdx, bit_index
+    bts [to_test], rdx
     
     setc al
     return al
diff --git a/src/emit_x64.c b/src/emit_x64.c
index ccd6b4e..af0edd4 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -627,13 +627,13 @@ func void emit_prefixes_and_opcode(struct context *context, struct prefixes _pre
         
     }else{
         if(size == 2) prefixes |= ASM_PREFIX_66;
+        if(prefixes & ASM_PREFIX_64) emit(0x64);
+        if(prefixes & ASM_PREFIX_65) emit(0x65);
+        if(prefixes & ASM_PREFIX_67) emit(0x67);
         if(prefixes & ASM_PREFIX_F0) emit(0xf0);
         if(prefixes & ASM_PREFIX_F2) emit(0xf2);
         if(prefixes & ASM_PREFIX_F3) emit(0xf3);
-        if(prefixes & ASM_PREFIX_64) emit(0x64);
-        if(prefixes & ASM_PREFIX_65) emit(0x65);
         if(prefixes & ASM_PREFIX_66) emit(0x66);
-        if(prefixes & ASM_PREFIX_67) emit(0x67);
         
         u8 rex = 0;
         if(prefixes & ASM_PREFIX_REX) rex |= REX;
-- 
2.43.0


From 13ee0d3e26b9ec9b06b7abbc52b38f4dd77f8e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:37 +0000
Subject: [PATCH 101/157] fix: vmovq was encoded as vmovd

---
 src/emit_x64.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index af0edd4..7fbb973 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -588,6 +588,7 @@ func void emit_prefixes_and_opcode(struct context *context, struct prefixes _pre
         if(register_is_extended(regm) || (index >= 0  && register_is_extended(index))) is_three_byte = true;
         
         if(opcode.amount_of_bytes == 3) is_three_byte = true;
+        if(size == 8) is_three_byte = true; // we need VEX.W
         
         assert((prefixes & (ASM_PREFIX_VEX | ASM_PREFIX_66 | ASM_PREFIX_F2 | ASM_PREFIX_F3)) == prefixes);
         assert(__popcnt((u32)prefixes) <= 2);
@@ -617,6 +618,8 @@ func void emit_prefixes_and_opcode(struct context *context, struct prefixes _pre
             
             u8 byte = (rex << 5) | mmmmm;
             emit(byte);
+            
+            if(size == 8) last_byte |= 0x80; // VEX.W
         }else{
             emit(0xc5); // two byte vex
             last_byte |= register_is_extended(reg) ? 0 : 0x80; // note: inverted!
-- 
2.43.0


From 7b5dfc53f0827f823b5f67d972d7c9f92945fbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:37 +0000
Subject: [PATCH 102/157] fix: vmovss was encoded as movss, which does not
 clear the upper half of the register

---
 src/emit_inline_asm_block.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index 912435d..7cb5b5c 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -1439,11 +1439,14 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 assert(inst->amount_of_operands == 2);
                 assert(lhs->state == EMIT_LOCATION_loaded);
                 
+                struct prefixes prefix = create_prefixes(ASM_PREFIX_VEX | ASM_PREFIX_F3);
+                
                 if(rhs->state == EMIT_LOCATION_register_relative){
-                    emit_register_relative_register(context, create_prefixes(ASM_PREFIX_F3), two_byte_opcode(0x10), lhs->loaded_register, rhs);
+                    emit_register_relative_register(context, prefix, two_byte_opcode(0x10), lhs->loaded_register, rhs);
                 }else{
                     assert(rhs->state == EMIT_LOCATION_loaded);
-                    emit_register_op__internal(context, create_prefixes(ASM_PREFIX_F3), two_byte_opcode(0x10), lhs->loaded_register, rhs->loaded_register, rhs->size);
+                    prefix.vex_register = lhs->loaded_register; // vmovss lhs, lhs, rhs
+                    emit_register_op__internal(context, prefix, two_byte_opcode(0x10), lhs->loaded_register, rhs->loaded_register, rhs->size);
                 }
             }break;
             
-- 
2.43.0


From 6e61ef053ad81f64df068670abe1904987f9814a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:36 +0000
Subject: [PATCH 103/157] fix: vinsertf128 with a memory operand was encoded as
 a 128-bit instruction

---
 src/emit_inline_asm_block.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index 7cb5b5c..29f06a8 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -1423,6 +1423,9 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                     operands[3]->size = 1;
                 }
                 
+                // @note: 'vinsertf128' is a 256-bit instruction with a 128-bit memory operand.
+                if(operands[2]->state == EMIT_LOCATION_register_relative) operands[2]->size = operands[0]->size;
+                
                 if(operands[2]->state == EMIT_LOCATION_register_relative){
                     emit_register_relative__internal(context, prefix, opcode, first->loaded_register, operands[2], operands[3]);
                 }else{
-- 
2.43.0


From 7631c8cdb9c03c25aaf2fe94a4007db854456afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:36 +0000
Subject: [PATCH 104/157] fix: vpsraq has no encoding without AVX-512, but was
 emitted as an unrelated instruction

---
 src/emit_inline_asm_block.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index 29f06a8..bb7f76e 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -1374,7 +1374,6 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
             
             // 'op ymm1, ymm2, ymm3/m256, imm8' or 'op xmm1, xmm2, xmm3/m128, imm8'
             // 'op ymm1, ymm2, ymm3/m256'       or 'op xmm1, xmm2, xmm3/m128'
-            case MEMONIC_vpsraq:
             case MEMONIC_vshufps:
             case MEMONIC_vpminub: case MEMONIC_vpxor: case MEMONIC_vpcmpeqb:
             case MEMONIC_vmulps: case MEMONIC_vaddps: case MEMONIC_vsubps:{
-- 
2.43.0


From d62dbb817027ef5323a958d5faba84a8eced170b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:36 +0000
Subject: [PATCH 105/157] fix: cvt(t)ss2si, cvt(t)sd2si and movmskps/d with an
 operand in memory

---
 src/emit_inline_asm_block.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index bb7f76e..7d23c8a 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -1158,19 +1158,23 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
             case MEMONIC_movmskps:  case MEMONIC_movmskpd:
             case MEMONIC_cvttss2si: case MEMONIC_cvttsd2si:
             case MEMONIC_cvtss2si:  case MEMONIC_cvtsd2si:{
-                struct emit_location *loaded = emit_load_float(context, rhs);
-                
                 struct prefixes prefix = create_prefixes(memonic_to_prefix[inst->memonic]);
                 struct opcode opcode = two_byte_opcode(memonic_to_opcode[inst->memonic]);
                 
-                if(lhs->state == EMIT_LOCATION_register_relative){
-                    emit_register_relative_register(context, prefix, opcode, loaded->loaded_register, lhs);
+                // @note: The destination of these instructions is always a general purpose register.
+                struct emit_location *dest = (lhs->state == EMIT_LOCATION_loaded) ? lhs :
+                        emit_location_loaded(context, REGISTER_KIND_gpr, allocate_register(context, REGISTER_KIND_gpr), lhs->size);
+                
+                if(rhs->state == EMIT_LOCATION_register_relative && inst->memonic != MEMONIC_movmskps && inst->memonic != MEMONIC_movmskpd){
+                    rhs->size = dest->size; // the destination decides whether or not we need a REX.W
+                    emit_register_relative_register(context, prefix, opcode, dest->loaded_register, rhs);
                 }else{
-                    assert(lhs->state == EMIT_LOCATION_loaded);
-                    emit_register_op__internal(context, prefix, opcode, lhs->loaded_register, loaded->loaded_register, lhs->size);
+                    struct emit_location *loaded = emit_load_float(context, rhs);
+                    emit_register_op__internal(context, prefix, opcode, dest->loaded_register, loaded->loaded_register, dest->size);
+                    if(loaded != rhs) free_emit_location(context, loaded);
                 }
                 
-                if(loaded != rhs) free_emit_location(context, loaded);
+                if(dest != lhs) emit_store(context, lhs, dest);
             }break;
             
             // op xmm1, xmm2/m128, imm8
-- 
2.43.0


From 722cb55f6cf56a16c1e092029a26e9bf1a627038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:26 +0000
Subject: [PATCH 106/157] fix: the size of a register operand changed, if the
 memory operand of the instruction used the same register

---
 src/emit_inline_asm_block.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index 7d23c8a..d1fc78c 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -67,7 +67,12 @@ func struct emit_location *asm_block_load_registers_which_was_used_by_user(struc
     
     loc = emit_location_loaded(context, register_kind, reg, size);
     loc->inline_asm__was_used_by_user = true;
-    return loc;
+    
+    // We have to copy here as well, as the size changes if the same instruction references the register again,
+    // e.g.: 'cvttsd2si edx, [rdx]'.
+    struct emit_location *ret = push_struct(&context->scratch, struct emit_location);
+    *ret = *loc;
+    return ret;
 }
 
 // @cleanup: if we keep this function, eventually remove the '_' currently here to clean old usages!
-- 
2.43.0


From 8e2baea4ec0f5517f41c71e8ac5e4cb189f15cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:26 +0000
Subject: [PATCH 107/157] fix: encode sal as shl, /6 is not a documented
 encoding

---
 src/emit_inline_asm_block.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index d1fc78c..360cc83 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -690,6 +690,7 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
             case MEMONIC_shl: case MEMONIC_shr:
             case MEMONIC_sal: case MEMONIC_sar:{
                 u8 REG_OPCODE = (u8)(inst->memonic - MEMONIC_rol);
+                if(inst->memonic == MEMONIC_sal) REG_OPCODE = 4; // 'sal' is the same as 'shl', /6 is undocumented.
                 b32 compound = lhs->state == EMIT_LOCATION_register_relative;
                 emit_shift_or_rotate__internal(context, user_prefixes, lhs, rhs, REG_OPCODE, compound);
             }break;
-- 
2.43.0


From a8c121d9131c5b0dd6832a7a5837af65d535b763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:26 +0000
Subject: [PATCH 108/157] fix: crc32 of 8-bit and 16-bit operands

---
 src/emit_inline_asm_block.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index 360cc83..9c62139 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -1485,12 +1485,19 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
             case MEMONIC_crc32:{
                 struct emit_location *loaded = emit_load_without_freeing_gpr(context, lhs);
                 struct prefixes prefix = create_prefixes(ASM_PREFIX_F2);
-                struct opcode opcode = three_byte_opcode(0x38, 0xf1);
+                
+                // crc32 r32, regm8, crc32 r64, regm8
+                // crc32 r32, regm
+                // crc32 r64, regm64
+                struct opcode opcode = three_byte_opcode(0x38, (rhs->size == 1) ? 0xf0 : 0xf1);
+                smm size = (rhs->size == 1) ? loaded->size : rhs->size;
                 
                 if(rhs->state == EMIT_LOCATION_loaded){
-                    emit_register_register(context, prefix, opcode, loaded, rhs);
+                    if(register_needs_rex_prefix(rhs->loaded_register, rhs->size)) prefix.legacy_prefixes |= ASM_PREFIX_REX;
+                    emit_register_op__internal(context, prefix, opcode, loaded->loaded_register, rhs->loaded_register, size);
                 }else{
                     assert(rhs->state == EMIT_LOCATION_register_relative);
+                    rhs->size = size;
                     emit_register_relative_register(context, prefix, opcode, loaded->loaded_register, rhs);
                 }
                 if(loaded != lhs) emit_store(context, lhs, loaded);
-- 
2.43.0


From 43a72c71d883eaee132ba0554e278025f2877cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:42 +0000
Subject: [PATCH 109/157] fix: asm mov of an integer to a 64-bit memory operand
 overwrote a register

---
 src/emit_inline_asm_block.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index 9c62139..1670421 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -591,7 +591,14 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 }else{
                     assert(lhs->state == EMIT_LOCATION_register_relative);
                     if(rhs->state == EMIT_LOCATION_immediate) rhs->size = lhs->size; // @clenaup: This was not true. I dunno, this whole stuff should be redone.
-                    emit_store(context, lhs, rhs);
+                    
+                    if(rhs->state == EMIT_LOCATION_immediate && lhs->size == 8 && (smm)rhs->value >= s32_min && (smm)rhs->value <= s32_max){
+                        // mov regm64, imm32 (sign-extended)
+                        rhs->size = 4;
+                        emit_register_relative_immediate(context, no_prefix(), one_byte_opcode(0xc7), 0, lhs, rhs);
+                    }else{
+                        emit_store(context, lhs, rhs);
+                    }
                 }
             }break;
             
-- 
2.43.0


From deca18bc67a917d256773832516c4481dcea767f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:42 +0000
Subject: [PATCH 110/157] fix: __cpuid did not clear ecx

---
 implicit/include/intrinsic.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/implicit/include/intrinsic.c b/implicit/include/intrinsic.c
index 0bfdcf5..70b393e 100644
--- a/implicit/include/intrinsic.c
+++ b/implicit/include/intrinsic.c
@@ -655,6 +655,7 @@ __declspec(inline_asm) void __cpuidex(int cpuInfo[4], int function_id, int subfu
 
 __declspec(inline_asm) void __cpuid(int cpuInfo[4], int function_id){
     mov eax, function_id
+    mov ecx, 0
     
     // rbx is non-volatile, hence we have to preserve it.
     mov r9, rbx
-- 
2.43.0


From 411fe0500e011289af47cb1eeeab2028e657e623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:51 +0000
Subject: [PATCH 111/157] fix: asm operands which are members or array elements
 have the size of the element

---
 src/emit_inline_asm_block.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index 1670421..8fbbe85 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -153,6 +153,7 @@ func struct emit_location *_asm_block_resolve_and_allocate_operand(struct contex
                 smm bytes_emitted_for_assert = get_bytes_emitted(context);
                 ret = get_emit_location_for_declaration(context, decl);
                 ret->offset += operand->declaration_offset;
+                if(operand->kind == ASM_ARG_declaration_reference) ret->size = operand->size; // e.g.: 'array[1]' or 's.a', where the declaration is larger.
                 assert(bytes_emitted_for_assert == get_bytes_emitted(context));
                 assert(ret->state == EMIT_LOCATION_register_relative);
             }
-- 
2.43.0


From ebf2cb4ba2d4164fc6fef2a493b43001308449f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:51 +0000
Subject: [PATCH 112/157] fix: clflush and lea of a variable in an asm block
 wrote out of bounds

---
 src/parse_asm_block.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse_asm_block.c b/src/parse_asm_block.c
index 660d3d8..7d98b52 100644
--- a/src/parse_asm_block.c
+++ b/src/parse_asm_block.c
@@ -2065,7 +2065,7 @@ func struct asm_instruction *parse_asm_instruction(struct context *context){
         }break;
         
         case MEMONIC_lea: case MEMONIC_clflush:{
-            asm_instruction->operands[regm_index].size = 4;
+            if(regm_index != -1) asm_instruction->operands[regm_index].size = 4;
         }break;
         
         // no need to do anything, we made sure that these only take memory addresses and the size does not matter to us
-- 
2.43.0


From ec1e4ec13b2fb6136739a2578ea99ca94032e46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:11 +0000
Subject: [PATCH 113/157] fix: asm blocks overwrote registers of the user when
 loading a pointer operand

---
 src/emit_x64.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index 7fbb973..dc3caeb 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -1031,6 +1031,21 @@ func enum register_encoding allocate_register(struct context *context, enum regi
     
     found_a_non_locked_register:;
     
+    if(context->inline_asm_mode && alloc->emit_location_map[first_non_locked_register]->inline_asm__was_used_by_user){
+        // The value the user expects is in this register, hence it cannot be spilled. Try to find one which was not used by the user.
+        b32 found = false;
+        for(u32 i = 0; i < amount_of_volatile_registers; i++){
+            struct emit_location *loc = alloc->emit_location_map[volatile_registers[i]];
+            if(loc->prevent_spilling || loc->inline_asm__was_used_by_user) continue;
+            
+            first_non_locked_register = volatile_registers[i];
+            found = true;
+            break;
+        }
+        
+        if(!found) report_error(context, context->inline_asm_mode, "Not enough unallocated registers to emit this asm block.");
+    }
+    
     spill_register(context, allocator, first_non_locked_register);
     return first_non_locked_register;
 }
-- 
2.43.0


From 09fc035834d808f499c2b2c441c92b671fd3f435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:23 +0000
Subject: [PATCH 114/157] fix: printlike functions ignored the flags of
 {}-formats

---
 src/parse.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 17ff96b..466aef3 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -3205,7 +3205,7 @@ void maybe_insert_implicit_nodes_for_varargs_argument(struct context *context, s
 }
 
 
-func void get_pretty_print_string_for_type(struct context *context, struct string_list *format_list, struct ast_type *type, struct string field_width, struct string precision, struct string type_specifiers){
+func void get_pretty_print_string_for_type(struct context *context, struct string_list *format_list, struct ast_type *type, struct string flags, struct string field_width, struct string precision, struct string type_specifiers){
     
     switch(type->kind){
         case AST_enum:{
@@ -3228,7 +3228,7 @@ func void get_pretty_print_string_for_type(struct context *context, struct strin
             
             if(is_string){
                 char *dot = precision.size ? "." : "";
-                format_string = push_format_string(&context->scratch, "%%%.*s%s%.*ss", field_width.size, field_width.data, dot, precision.size, precision.data);
+                format_string = push_format_string(&context->scratch, "%%%.*s%.*s%s%.*ss", flags.size, flags.data, field_width.size, field_width.data, dot, precision.size, precision.data);
             }
             
             string_list_postfix(format_list, &context->scratch, format_string);
@@ -3252,7 +3252,7 @@ func void get_pretty_print_string_for_type(struct context *context, struct strin
             char *dot = precision.size ? "." : "";
             char *prefix = (*type_specifier == 'x') ? "0x" : ((*type_specifier == 'o') ? "0o" : "");
             
-            struct string format_string = push_format_string(&context->scratch, "%s%%%.*s%s%.*s%s%s", prefix, field_width.size, field_width.data, dot, precision.size, precision.data, length_modifier, type_specifier);
+            struct string format_string = push_format_string(&context->scratch, "%s%%%.*s%.*s%s%.*s%s%s", prefix, flags.size, flags.data, field_width.size, field_width.data, dot, precision.size, precision.data, length_modifier, type_specifier);
             
             string_list_postfix(format_list, &context->scratch, format_string);
         }break;
@@ -3261,7 +3261,7 @@ func void get_pretty_print_string_for_type(struct context *context, struct strin
             char *dot = precision.size ? "." : "";
             char *postfix = type->size == 4 ? "f" : "";
             
-            struct string format_string = push_format_string(&context->scratch, "%%%.*s%s%.*sf%s", field_width.size, field_width.data, dot, precision.size, precision.data, postfix);
+            struct string format_string = push_format_string(&context->scratch, "%%%.*s%.*s%s%.*sf%s", flags.size, flags.data, field_width.size, field_width.data, dot, precision.size, precision.data, postfix);
             
             string_list_postfix(format_list, &context->scratch, format_string);
         }break;
@@ -3276,6 +3276,13 @@ void printlike__infer_format_string_and_arguments_for_argument(struct context *c
     
     struct ast_type *argument_type = argument->resolved_type;
     
+    // The '#' flag asks for a multi line print of structures, all other flags are applied to the scalars.
+    struct string scalar_flags = push_format_string(&context->scratch, "%.*s", flags.size, flags.data);
+    scalar_flags.size = 0;
+    for(smm flag_index = 0; flag_index < flags.size; flag_index++){
+        if(flags.data[flag_index] != '#') scalar_flags.data[scalar_flags.size++] = flags.data[flag_index];
+    }
+    
     if(argument_type->kind == AST_array_type){
         // 
         // For print("{:s}", "hello"), we want to print "hello" not an array literal.
@@ -3426,7 +3433,7 @@ void printlike__infer_format_string_and_arguments_for_argument(struct context *c
             //
             // Actually pretty print the argument to string.
             //
-            get_pretty_print_string_for_type(context, pretty_print_list, expr.resolved_type, field_width, precision, type_specifiers);
+            get_pretty_print_string_for_type(context, pretty_print_list, expr.resolved_type, scalar_flags, field_width, precision, type_specifiers);
             *call_arguments_count += 1;
             
             // 
@@ -3480,7 +3487,7 @@ void printlike__infer_format_string_and_arguments_for_argument(struct context *c
         
         // No need to push a declaration for these, they are just read once anyway, 
         // also no need to specify a depth.
-        get_pretty_print_string_for_type(context, pretty_print_list, argument->resolved_type, field_width, precision, type_specifiers);
+        get_pretty_print_string_for_type(context, pretty_print_list, argument->resolved_type, scalar_flags, field_width, precision, type_specifiers);
         *call_arguments_count += 1;
     }
 }
-- 
2.43.0


From 7253713cf2e64f7cb5a02ea097aa7e073330c4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:23 +0000
Subject: [PATCH 115/157] fix: {:s} printed the address of arrays of unsigned
 characters

---
 src/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 466aef3..c2c0e50 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -3218,7 +3218,7 @@ func void get_pretty_print_string_for_type(struct context *context, struct strin
             
             int is_string = 0;
             
-            if(pointer->pointer_to == &globals.typedef_s8){
+            if(pointer->pointer_to == &globals.typedef_s8 || pointer->pointer_to == &globals.typedef_u8){
                 for(u32 index = 0; index < type_specifiers.size; index++){
                     if(type_specifiers.data[index] == 's') is_string = 1;
                 }
-- 
2.43.0


From d251ff5ee72d9638d29b4d5fc7daf0e4142eff20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:23 +0000
Subject: [PATCH 116/157] fix: printlike functions printed a name for anonymous
 members

---
 src/parse.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index c2c0e50..2a28e94 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -3401,8 +3401,11 @@ void printlike__infer_format_string_and_arguments_for_argument(struct context *c
                     dot->base.kind = IR_member;
                     dot->member = &compound->members[node->member_at];
                     
-                    string_list_postfix_no_copy(pretty_print_list, &context->scratch, string("."));
-                    string_list_postfix_no_copy(pretty_print_list, &context->scratch, dot->member->name->string);
+                    // Members of anonymous structures and unions are designated without the anonymous member.
+                    if(dot->member->name != globals.invalid_identifier_token){
+                        string_list_postfix_no_copy(pretty_print_list, &context->scratch, string("."));
+                        string_list_postfix_no_copy(pretty_print_list, &context->scratch, dot->member->name->string);
+                    }
                     
                     ir = &dot->base;
                     
-- 
2.43.0


From 14d1fa7c1a04eaa8e1d6c232dc8abcce40d66246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:43 +0000
Subject: [PATCH 117/157] fix: printing empty structures and arrays crashed

---
 src/parse.c | 89 ++++++++++++++++++++++++++++++++---------------------
 1 file changed, 54 insertions(+), 35 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 2a28e94..b72365b 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -3359,14 +3359,18 @@ void printlike__infer_format_string_and_arguments_for_argument(struct context *c
                 
                 if(type->kind == AST_struct || type->kind == AST_union){
                     struct ast_compound_type *compound = (struct ast_compound_type *)type;
-                    type = compound->members[node->member_at].type; // @cleanup: empty structures.
+                    if(!compound->amount_of_members) break;
+                    
+                    type = compound->members[node->member_at].type;
                     
                     new_node = push_struct(&context->scratch, struct stack_node);
                     new_node->lhs_type = type;
                     new_node->member_at = 0;
                 }else if(type->kind == AST_array_type){
                     struct ast_array_type *array_type = (struct ast_array_type *)type;
-                    type = array_type->element_type;// @cleanup: empty arrays.
+                    if(!array_type->amount_of_elements) break;
+                    
+                    type = array_type->element_type;
                     
                     new_node = push_struct(&context->scratch, struct stack_node);
                     new_node->lhs_type = type;
@@ -3378,10 +3382,16 @@ void printlike__infer_format_string_and_arguments_for_argument(struct context *c
                 dll_push_front(designator_stack, new_node);
             }
             
+            // 
+            // Empty structures and arrays do not have any value to pass.
+            // 
+            struct ast_type *leaf_type = designator_stack.first->lhs_type;
+            b32 is_empty = (leaf_type->kind == AST_struct || leaf_type->kind == AST_union || leaf_type->kind == AST_array_type);
+            
             // 
             // Duplicate the emit_location on the stack.
             // 
-            struct ir *ir = push_ir(context, IR_duplicate);
+            struct ir *ir = is_empty ? null : push_ir(context, IR_duplicate);
             
             if(depth_or_minus_one != -1){
                 string_list_postfix_no_copy(pretty_print_list, &context->scratch, string("    "));
@@ -3393,56 +3403,65 @@ void printlike__infer_format_string_and_arguments_for_argument(struct context *c
             
             for(struct stack_node *node = designator_stack.last; node; node = node->prev){
                 struct ast_type *type = node->lhs_type;
+                if(is_empty && node == designator_stack.first) break;
                 
                 if(type->kind == AST_struct || type->kind == AST_union){
                     struct ast_compound_type *compound = (struct ast_compound_type *)type;
-                    
-                    struct ir_dot_or_arrow *dot = push_uninitialized_struct(&context->ir_arena, struct ir_dot_or_arrow);
-                    dot->base.kind = IR_member;
-                    dot->member = &compound->members[node->member_at];
+                    struct compound_member *member = &compound->members[node->member_at];
                     
                     // Members of anonymous structures and unions are designated without the anonymous member.
-                    if(dot->member->name != globals.invalid_identifier_token){
+                    if(member->name != globals.invalid_identifier_token){
                         string_list_postfix_no_copy(pretty_print_list, &context->scratch, string("."));
-                        string_list_postfix_no_copy(pretty_print_list, &context->scratch, dot->member->name->string);
+                        string_list_postfix_no_copy(pretty_print_list, &context->scratch, member->name->string);
                     }
                     
-                    ir = &dot->base;
+                    if(!is_empty){
+                        struct ir_dot_or_arrow *dot = push_uninitialized_struct(&context->ir_arena, struct ir_dot_or_arrow);
+                        dot->base.kind = IR_member;
+                        dot->member = member;
+                        ir = &dot->base;
+                    }
                     
                 }else if(type->kind == AST_array_type){
                     struct ast_array_type *array_type = (struct ast_array_type *)type;
                     
-                    ast_push_u64_literal(context, node->array_at, null);
-                    
-                    struct ir_subscript *subscript = push_uninitialized_struct(&context->ir_arena, struct ir_subscript);
-                    subscript->base.kind = IR_array_subscript;
-                    subscript->type = array_type->element_type;
-                    
                     struct string string = push_format_string(&context->scratch, "[%llu]", node->array_at);
                     string_list_postfix_no_copy(pretty_print_list, &context->scratch, string);
                     
-                    ir = &subscript->base;
+                    if(!is_empty){
+                        ast_push_u64_literal(context, node->array_at, null);
+                        
+                        struct ir_subscript *subscript = push_uninitialized_struct(&context->ir_arena, struct ir_subscript);
+                        subscript->base.kind = IR_array_subscript;
+                        subscript->type = array_type->element_type;
+                        
+                        ir = &subscript->base;
+                    }
                 }
             }
             
-            struct expr expr = {
-                .ir = ir,
-                .resolved_type = designator_stack.first->lhs_type,
-            };
-            maybe_insert_implicit_nodes_for_varargs_argument(context, &expr);
-            
-            string_list_postfix_no_copy(pretty_print_list, &context->scratch, string(" = "));
-            
-            //
-            // Actually pretty print the argument to string.
-            //
-            get_pretty_print_string_for_type(context, pretty_print_list, expr.resolved_type, scalar_flags, field_width, precision, type_specifiers);
-            *call_arguments_count += 1;
-            
-            // 
-            // Swap in the correct result.
-            // 
-            push_ir(context, IR_swap_lhs_rhs);
+            if(is_empty){
+                string_list_postfix_no_copy(pretty_print_list, &context->scratch, (designator_stack.first == &initial_node) ? string("") : string(" = {}"));
+            }else{
+                struct expr expr = {
+                    .ir = ir,
+                    .resolved_type = designator_stack.first->lhs_type,
+                };
+                maybe_insert_implicit_nodes_for_varargs_argument(context, &expr);
+                
+                string_list_postfix_no_copy(pretty_print_list, &context->scratch, string(" = "));
+                
+                //
+                // Actually pretty print the argument to string.
+                //
+                get_pretty_print_string_for_type(context, pretty_print_list, expr.resolved_type, scalar_flags, field_width, precision, type_specifiers);
+                *call_arguments_count += 1;
+                
+                // 
+                // Swap in the correct result.
+                // 
+                push_ir(context, IR_swap_lhs_rhs);
+            }
             
             dll_remove(designator_stack, designator_stack.first);
             
-- 
2.43.0


From c43d3f532ca1b0a589f79ba2898e058a2dac1115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:02 +0000
Subject: [PATCH 118/157] fix: {:s} printed the address of arrays which are not
 strings

---
 src/parse.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index b72365b..303818f 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -3293,7 +3293,9 @@ void printlike__infer_format_string_and_arguments_for_argument(struct context *c
         // 
         
         for(smm type_specifier_index = 0; type_specifier_index < type_specifiers.size; type_specifier_index++){
-            if(type_specifiers.data[type_specifier_index] == 's'){
+            struct ast_type *element_type = ((struct ast_array_type *)argument_type)->element_type;
+            
+            if(type_specifiers.data[type_specifier_index] == 's' && (element_type == &globals.typedef_s8 || element_type == &globals.typedef_u8)){
                 maybe_load_address_for_array_or_function(context, IR_load_address, argument);
                 argument_type = argument->resolved_type;
                 break;
-- 
2.43.0


From 409eafc38461095445e61f875c3f5f09f388e441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:41 +0000
Subject: [PATCH 119/157] fix: globals referenced only by the format string of
 a printlike function were not emitted

---
 src/parse.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index 303818f..2e64547 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -4182,6 +4182,16 @@ static void parse_call_to_printlike_function_arguments(struct context *context,
                     return;
                 }
                 
+                if(declaration->kind == IR_function || (declaration->kind == IR_declaration && (declaration->flags & DECLARATION_FLAGS_is_global))){
+                    // The format string is a reference to the declaration like any other.
+                    struct declaration_reference_node *new_reference = push_uninitialized_struct(context->arena, struct declaration_reference_node);
+                    new_reference->declaration = declaration;
+                    new_reference->token = format_string_argument->token;
+                    sll_push_back(context->current_function->referenced_declarations, new_reference);
+                }else{
+                    declaration->_times_referenced++;
+                }
+                
                 struct ir_identifier *ident = push_uninitialized_struct(&context->ir_arena, struct ir_identifier);
                 ident->base.kind = IR_identifier;
                 ident->decl = declaration;
-- 
2.43.0


From fb772eb3981e066c0d6561eba01b5dd544420087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:41 +0000
Subject: [PATCH 120/157] fix: internal compiler error for types in the format
 string of a printlike function

---
 src/parse.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 2e64547..8958575 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -4177,8 +4177,8 @@ static void parse_call_to_printlike_function_arguments(struct context *context,
                 // Allow '{s}', '{x}'.
                 type_specifiers = identifier;
             }else{
-                if(!declaration){
-                    report_error(context, format_string_argument->token, "Identifier '%.*s' in format specifier '%.*s', is undeclared.", identifier.size, identifier.data, format_specifier.size, format_specifier.data);
+                if(!declaration || declaration->kind == IR_typedef){
+                    report_error(context, format_string_argument->token, "Identifier '%.*s' in format specifier '%.*s', is %s.", identifier.size, identifier.data, format_specifier.size, format_specifier.data, declaration ? "a type" : "undeclared");
                     return;
                 }
                 
-- 
2.43.0


From 22250858cbaffb6b9a313ca02be8f3fa9c6b78a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:56 +0000
Subject: [PATCH 121/157] fix: printlike functions ignored the width of
 pointers, but not the arguments for it

---
 src/parse.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 8958575..74842a1 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -3224,12 +3224,10 @@ func void get_pretty_print_string_for_type(struct context *context, struct strin
                 }
             }
             
-            struct string format_string = string("%p");
+            char *dot = precision.size ? "." : "";
+            char *type_specifier = is_string ? "s" : "p";
             
-            if(is_string){
-                char *dot = precision.size ? "." : "";
-                format_string = push_format_string(&context->scratch, "%%%.*s%.*s%s%.*ss", flags.size, flags.data, field_width.size, field_width.data, dot, precision.size, precision.data);
-            }
+            struct string format_string = push_format_string(&context->scratch, "%%%.*s%.*s%s%.*s%s", flags.size, flags.data, field_width.size, field_width.data, dot, precision.size, precision.data, type_specifier);
             
             string_list_postfix(format_list, &context->scratch, format_string);
         }break;
-- 
2.43.0


From b443e33d8cc8336f03b46d44c6c7b75f8ae3b2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:37 +0000
Subject: [PATCH 122/157] fix: enumeration constants in the format string of a
 printlike function are integers

---
 src/parse.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index 74842a1..8b60a2d 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -4201,6 +4201,12 @@ static void parse_call_to_printlike_function_arguments(struct context *context,
                 
                 struct expr argument = {.ir = &ident->base, format_string_argument->token, declaration->type, declaration->defined_type};
                 
+                if(declaration->flags & DECLARATION_FLAGS_is_enum_member){
+                    // Enumeration constants have type 'int'.
+                    pop_from_ir_arena(context, ident);
+                    argument = ast_push_s32_literal(context, ((struct ir_integer_literal *)declaration->assign_expr)->_s32, format_string_argument->token);
+                }
+                
                 printlike__infer_format_string_and_arguments_for_argument(context, &argument, &pretty_print_list, flags, field_width, precision, type_specifiers, call_arguments_count);
                 continue;
             }
-- 
2.43.0


From 3a1ad2f9449982808212a5d4d4ca3b9cdbb540b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:58 +0000
Subject: [PATCH 123/157] fix: operands of sizeof and _Alignof and unused
 _Generic associations had to be defined

---
 src/main.c  |  1 +
 src/parse.c | 39 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 40 insertions(+)

diff --git a/src/main.c b/src/main.c
index a872c71..1fadbaa 100644
--- a/src/main.c
+++ b/src/main.c
@@ -781,6 +781,7 @@ struct context{
         
         struct expr operand;
         void *other;
+        struct declaration_reference_node *last_reference; // For sizeof and alignof.
     } ast_stack[1024];
     smm ast_stack_at;
     
diff --git a/src/parse.c b/src/parse.c
index 8b60a2d..0ec11e3 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -1415,6 +1415,32 @@ func void handle_dot_or_arrow(struct context *context, struct ast_compound_type
 //_____________________________________________________________________________________________________________________
 // Ast stack
 
+// 
+// The operands of `sizeof`, `_Alignof` and the unused parts of a `_Generic` are not evaluated, hence they do not reference any declarations.
+// 
+func struct ast_declaration *get_referencing_declaration(struct context *context){
+    return context->current_function ? &context->current_function->as_decl : context->current_declaration;
+}
+
+func struct declaration_reference_node *get_last_reference(struct context *context){
+    struct ast_declaration *declaration = get_referencing_declaration(context);
+    return declaration ? declaration->referenced_declarations.last : null;
+}
+
+// Delete all references after 'begin', up to and including 'end'.
+func void delete_references(struct context *context, struct declaration_reference_node *begin, struct declaration_reference_node *end){
+    struct ast_declaration *declaration = get_referencing_declaration(context);
+    if(!declaration || begin == end) return;
+    
+    if(begin){
+        begin->next = end->next;
+    }else{
+        declaration->referenced_declarations.first = end->next;
+    }
+    
+    if(declaration->referenced_declarations.last == end) declaration->referenced_declarations.last = begin;
+}
+
 func struct ast_stack_entry *ast_stack_push(struct context *context, enum ast_kind kind, struct token *token, struct expr *operand){
     if(context->ast_stack_at + 1 > array_count(context->ast_stack)){
         
@@ -4380,11 +4406,13 @@ func struct expr parse_expression(struct context *context, b32 should_skip_comma
         case TOKEN_sizeof:{
             struct ast_stack_entry *entry = ast_stack_push(context, AST_sizeof, next_token(context), null); 
             entry->other = arena_current(&context->ir_arena); // For sizeof(expression), we have to delete the whole expression.
+            entry->last_reference = get_last_reference(context);
             goto restart;
         }
         case TOKEN_alignof:{
             struct ast_stack_entry *entry = ast_stack_push(context, AST_alignof, next_token(context), null); 
             entry->other = arena_current(&context->ir_arena); // For alignof(expression), we have to delete the whole expression.
+            entry->last_reference = get_last_reference(context);
             goto restart;
         }
         
@@ -5139,6 +5167,7 @@ case NUMBER_KIND_##type:{ \
             expect_token(context, TOKEN_open_paren, "Expected a '(' after '_Generic'.");
             
             u8 *ir_arena_start = arena_current(&context->ir_arena);
+            struct declaration_reference_node *last_reference = get_last_reference(context);
             
             struct expr choice_expression = parse_expression(context, /*skip_comma_expression*/1);
             maybe_load_address_for_array_or_function(context, IR_load_address, &choice_expression);
@@ -5147,7 +5176,9 @@ case NUMBER_KIND_##type:{ \
             struct ast_type *choice = choice_expression.resolved_type;
             
             context->ir_arena.current = ir_arena_start;
+            delete_references(context, last_reference, get_last_reference(context));
             
+            struct declaration_reference_node *last_default_reference = null;
             struct expr default_expression = zero_struct;
             struct expr choosen_expression = zero_struct;
             u8 *default_start = null;
@@ -5161,14 +5192,17 @@ case NUMBER_KIND_##type:{ \
                     expect_token(context, TOKEN_colon, "Expected ':' after 'default' while parsing a _Generic association list.");
                     
                     u8 *expression_start = arena_current(&context->ir_arena);
+                    struct declaration_reference_node *expression_reference = get_last_reference(context);
                     struct expr expression = parse_expression(context, /*skip_comma_expression*/1);
                     
                     if(choosen_expression.ir){
                         memset(expression_start, 0, context->ir_arena.current - expression_start);
                         context->ir_arena.current = expression_start;
+                        delete_references(context, expression_reference, get_last_reference(context));
                     }else{
                         default_expression = expression;
                         default_start = expression_start;
+                        last_default_reference = get_last_reference(context);
                     }
                 }else{
                     struct type_info_return type_name = maybe_parse_type_for_cast_or_sizeof(context);
@@ -5181,6 +5215,7 @@ case NUMBER_KIND_##type:{ \
                     expect_token(context, TOKEN_colon, "Expected ':' after the type-name while parsing a _Generic association list.");
                     
                     u8 *expression_start = arena_current(&context->ir_arena);
+                    struct declaration_reference_node *expression_reference = get_last_reference(context);
                     struct expr expression = parse_expression(context, /*skip_comma_expression*/1);
                     
                     if(!choosen_expression.ir && types_are_equal(type_name.type, choice)){
@@ -5199,6 +5234,7 @@ case NUMBER_KIND_##type:{ \
                             
                             context->ir_arena.current = default_start + expression_size;
                             choosen_expression.ir = (struct ir *)((u8 *)choosen_expression.ir - default_size);
+                            delete_references(context, last_reference, last_default_reference);
                         }
                     }else{
                         // 
@@ -5206,6 +5242,7 @@ case NUMBER_KIND_##type:{ \
                         // 
                         memset(expression_start, 0, context->ir_arena.current - expression_start);
                         context->ir_arena.current = expression_start;
+                        delete_references(context, expression_reference, get_last_reference(context));
                     }
                 }
             }
@@ -5940,6 +5977,7 @@ case NUMBER_KIND_##type:{ \
                 
                 // @note: Delete the whole <expression> off of the `ir_arena`.
                 context->ir_arena.current = stack_entry->other;
+                delete_references(context, stack_entry->last_reference, get_last_reference(context));
                 
                 // Sets in op->operand in the next iteration.
                 operand = ast_push_u64_literal(context, size, operand.token);
@@ -5962,6 +6000,7 @@ case NUMBER_KIND_##type:{ \
                 
                 // @note: Delete the whole <expression> off of the `ir_arena`.
                 context->ir_arena.current = stack_entry->other;
+                delete_references(context, stack_entry->last_reference, get_last_reference(context));
                 
                 // Sets in op->operand in the next iteration.
                 operand = ast_push_u64_literal(context, alignment, operand.token);
-- 
2.43.0


From 57ecb66076b79208bc289577c9ec1c9463853a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:58 +0000
Subject: [PATCH 124/157] fix: relocations of compound literals at global scope
 were missing in object files

---
 src/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.c b/src/main.c
index 1fadbaa..0542598 100644
--- a/src/main.c
+++ b/src/main.c
@@ -2352,6 +2352,7 @@ func void evaluate_static_initializer__internal(struct context *context, struct
                     evaluate_static_initializer__internal(context, ir_node, patch_declaration, data, data_size, offset);
                 }else{
                     // Add this compound literal to the list of unnamed global declarations.
+                    compound_literal->decl->flags |= DECLARATION_FLAGS_is_reachable_from_entry;
                     ast_list_append(&context->global_struct_and_array_literals, context->arena, &compound_literal->decl->kind);
                     
                     ir_stack[ir_stack_at].ir = &compound_literal->decl->base;
-- 
2.43.0


From 802b975f62eab1dcc17665d48c7daacf0778e0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:26 +0000
Subject: [PATCH 125/157] fix: the compiler crashed when reading a source file
 failed

---
 src/preprocess.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/preprocess.c b/src/preprocess.c
index c534514..f62f48b 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -2753,6 +2753,11 @@ func struct file *load_or_get_source_file_by_absolute_path(struct context *conte
         goto end;
     }
     
+    if(!os_file.memory){
+        report_error(context, 0, "Error: File '%s' could not be read.", absolute_file_path);
+        goto end;
+    }
+    
     file->file = os_file;
     file->amount_of_times_included = 0;
     
-- 
2.43.0


From 0f85bb87bfa88217ad00ef24e9dedfa76dee4756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:16 +0000
Subject: [PATCH 126/157] fix: failing writes of the pdb were not reported

---
 src/coff_writer.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/coff_writer.c b/src/coff_writer.c
index 4a24bf3..d366f18 100644
--- a/src/coff_writer.c
+++ b/src/coff_writer.c
@@ -350,6 +350,11 @@ struct msf_stream{
 // "Old stream table"-stream. Furthermore, everything past the first 3 pages 
 // is potentially "interrupted", by the later pages of the Free Page Maps.
 // 
+static int msf_write(HANDLE file_handle, void *data, u32 size){
+    DWORD bytes_written = 0;
+    return WriteFile(file_handle, data, size, &bytes_written, 0) && bytes_written == size;
+}
+
 int write_msf(char *file_name, struct msf_stream *streams, u32 amount_of_streams){
     
     // 
@@ -527,7 +532,9 @@ int write_msf(char *file_name, struct msf_stream *streams, u32 amount_of_streams
     HANDLE file_handle = CreateFileA(file_name, GENERIC_WRITE, 0, 0, CREATE_ALWAYS, 0, NULL);
     if(file_handle == INVALID_HANDLE_VALUE) return 0;
     
-    WriteFile(file_handle, msf_header, 0x1000, 0, 0);
+    int success = 1;
+    
+    success = success && msf_write(file_handle, msf_header, 0x1000);
     
     u64 write_offset = 0x1000;
     u64 next_free_page_maps = 0x1000;
@@ -556,11 +563,11 @@ int write_msf(char *file_name, struct msf_stream *streams, u32 amount_of_streams
                 if(range_end <= amount_of_pages){
                     // If the range covered by this free page map is entirely in the file,
                     // write all zeros (all allocated).
-                    WriteFile(file_handle, zero_buffer, 0x1000, 0, 0);
+                    success = success && msf_write(file_handle, zero_buffer, 0x1000);
                 }else if(amount_of_pages < range_start){
                     // If the range covered by this free page map is entirely outside the file,
                     // write all ones (all free).
-                    WriteFile(file_handle, ones_buffer, 0x1000, 0, 0);
+                    success = success && msf_write(file_handle, ones_buffer, 0x1000);
                 }else{
                     u8 buffer[0x1000] = {0};
                     
@@ -573,10 +580,10 @@ int write_msf(char *file_name, struct msf_stream *streams, u32 amount_of_streams
                         
                         buffer[byte_index] |= (u8)(1 << bit_index);
                     }
-                    WriteFile(file_handle, buffer, 0x1000, 0, 0);
+                    success = success && msf_write(file_handle, buffer, 0x1000);
                 }
                 
-                WriteFile(file_handle, zero_buffer, 0x1000, 0, 0); // Ignored free page map.
+                success = success && msf_write(file_handle, zero_buffer, 0x1000); // Ignored free page map.
                 
                 write_offset += 0x2000;
                 next_free_page_maps += 0x1000 * 0x1000;
@@ -588,11 +595,11 @@ int write_msf(char *file_name, struct msf_stream *streams, u32 amount_of_streams
                 size_to_write = (u32)(next_free_page_maps - write_offset);
             }
             
-            WriteFile(file_handle, stream.data + offset_in_stream, size_to_write, 0, 0);
+            success = success && msf_write(file_handle, stream.data + offset_in_stream, size_to_write);
             
             if(size_to_write & 0xfff){
                 u32 size_to_zero = 0x1000 - (size_to_write & 0xfff);
-                WriteFile(file_handle, zero_buffer, size_to_zero, 0, 0); // Ignored free page map.
+                success = success && msf_write(file_handle, zero_buffer, size_to_zero); // Ignored free page map.
                 size_to_write += size_to_zero;
             }
             
@@ -602,7 +609,7 @@ int write_msf(char *file_name, struct msf_stream *streams, u32 amount_of_streams
     }
     
     CloseHandle(file_handle);
-    return 1;
+    return success;
 }
 
 //_____________________________________________________________________________________________________________________
-- 
2.43.0


From 3617a6cb4eb570600b58ede5d18aada93c319186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:57 +0000
Subject: [PATCH 127/157] fix: failures to create or write the preprocessed
 file were not reported and long pragmas were read past the end of a buffer

---
 src/main.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/main.c b/src/main.c
index 0542598..72bad53 100644
--- a/src/main.c
+++ b/src/main.c
@@ -2730,6 +2730,14 @@ func void reset_context(struct context *context){
     context->pragma_pack_stack.first = context->pragma_pack_stack.last = null;
 }
 
+static void write_to_preprocessed_file(char *data, smm size){
+    DWORD bytes_written = 0;
+    if(size && (!WriteFile(globals.preprocessed_file_handle, data, (DWORD)size, &bytes_written, 0) || bytes_written != (DWORD)size)){
+        print("Error: Could not write the preprocessed file.\n");
+        globals.an_error_has_occurred = true;
+    }
+}
+
 func void worker_preprocess_file(struct context *context, struct work_queue_entry *work){
     
     struct work_tokenize_file *work_tokenize_file = cast(struct work_tokenize_file *)work->data;
@@ -2883,7 +2891,7 @@ func void worker_preprocess_file(struct context *context, struct work_queue_entr
         
         smm preprocessed_file_size = (char *)arena_current(&context->scratch) - preprocessed_file_start;
         
-        WriteFile(globals.preprocessed_file_handle, preprocessed_file_start, (DWORD)preprocessed_file_size, NULL, NULL);
+        write_to_preprocessed_file(preprocessed_file_start, preprocessed_file_size);
         return;
     }
     
@@ -4906,6 +4914,10 @@ globals.typedef_##postfix = (struct ast_type){
             }
             
             globals.preprocessed_file_handle = CreateFileA((char *)output_file_name.data, GENERIC_WRITE, 0, 0, CREATE_ALWAYS, 0, NULL);
+            if(globals.preprocessed_file_handle == INVALID_HANDLE_VALUE){
+                print("Error: Could not create file '%.*s'.\n", output_file_name.size, output_file_name.data);
+                return 1;
+            }
         }else{
             globals.preprocessed_file_handle = GetStdHandle(STD_OUTPUT_HANDLE);
         }
@@ -5003,20 +5015,17 @@ globals.typedef_##postfix = (struct ast_type){
         //   1) #pragma comment(linker, "/ALTERNATENAME:strdup=_strdup")
         //   2) #pragma comment(lib, "dbghelp")
         
-        char buffer[0x100];
         for(struct alternate_name *name = globals.alternate_names.first; name; name = name->next){
-            int length = snprintf(buffer, sizeof(buffer), "#pragma comment(linker, \"/ALTERNATENAME:%.*s=%.*s\")\n", (int)name->source.size, name->source.data, (int)name->destination.size, name->destination.data);
-            DWORD chars_written;
-            WriteFile(globals.preprocessed_file_handle, buffer, (u32)length, &chars_written, 0);
+            struct string line = push_format_string(context->arena, "#pragma comment(linker, \"/ALTERNATENAME:%.*s=%.*s\")\n", name->source.size, name->source.data, name->destination.size, name->destination.data);
+            write_to_preprocessed_file((char *)line.data, line.size);
         }
         
         for(struct specified_library *library = globals.specified_libraries.first; library; library = library->next){
-            int length = snprintf(buffer, sizeof(buffer), "#pragma comment(lib, \"%.*s\")\n", (int)library->library_path.size, library->library_path.data);
-            DWORD chars_written;
-            WriteFile(globals.preprocessed_file_handle, buffer, (u32)length, &chars_written, 0);
+            struct string line = push_format_string(context->arena, "#pragma comment(lib, \"%.*s\")\n", library->library_path.size, library->library_path.data);
+            write_to_preprocessed_file((char *)line.data, line.size);
         }
         
-        return 0;
+        return globals.an_error_has_occurred ? 1 : 0;
     }
     
 #if 0
-- 
2.43.0


From e274b3edf3e02f5e07b5412952d935abdd0e1f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:57 +0000
Subject: [PATCH 128/157] fix: the compiler crashed when reading a library or
 an embedded file failed

---
 src/ar.c         | 5 +++++
 src/preprocess.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/ar.c b/src/ar.c
index c1f82f3..6c01572 100644
--- a/src/ar.c
+++ b/src/ar.c
@@ -27,6 +27,11 @@ int ar_parse_file(struct string file_name, struct memory_arena *arena){
         return 1;
     }
     
+    if(!file.memory){
+        print("Error: Library '%s' could not be read.\n", (char *)file_name.data);
+        return 1;
+    }
+    
     if(file.size < 8 || memcmp(file.data, "!<arch>\n", 8) != 0){
         print("Error: Library '%s' is not an archive file (.lib, .a, .ar).\n", (char *)file_name.data);
         return 1;
diff --git a/src/preprocess.c b/src/preprocess.c
index f62f48b..d50819b 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -4643,6 +4643,11 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                             goto end;
                         }
                         
+                        if(!file.memory){
+                            report_error(context, directive, "File '%.*s' could not be read.", absolute_file_path.size, absolute_file_path.data);
+                            goto end;
+                        }
+                        
                         smm embed_tokens = prefix.size + suffix.size + (file.size ? 1 : if_empty.size);
                         
                         while(emitted_tokens + embed_tokens >= committed_tokens){
-- 
2.43.0


From 69940ca761a3b67706cce8e41a7d9890a02f16e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:39 +0000
Subject: [PATCH 129/157] fix: failures to write the preprocessed file or to
 read a command file were not reported

---
 meta_programs/parse_cli.c |  2 +-
 src/cli.c                 |  2 +-
 src/main.c                | 11 +++++------
 3 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/meta_programs/parse_cli.c b/meta_programs/parse_cli.c
index 3a80b86..b447052 100644
--- a/meta_programs/parse_cli.c
+++ b/meta_programs/parse_cli.c
@@ -920,7 +920,7 @@ int main(int argc, char *argv[]){
             "            // @CommandFile, load the file and recursively call `cli_parse_options`.\n"
             "            //\n"
             "            struct os_file command_file = load_file_into_arena(option_cstring + 1, arena); // @note: This functions puts a zero-terminator.\n"
-            "            if(command_file.file_does_not_exist){\n"
+            "            if(command_file.file_does_not_exist || !command_file.memory){\n"
             "                print(\"Error: Could not load command file '%s'.\\n\", option_cstring + 1);\n"
             "                return 0;\n"
             "            }\n"
diff --git a/src/cli.c b/src/cli.c
index 268192b..29d0e18 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -328,7 +328,7 @@ int cli_parse_options(struct cli_options *cli_options, struct memory_arena *aren
             // @CommandFile, load the file and recursively call `cli_parse_options`.
             //
             struct os_file command_file = load_file_into_arena(option_cstring + 1, arena); // @note: This functions puts a zero-terminator.
-            if(command_file.file_does_not_exist){
+            if(command_file.file_does_not_exist || !command_file.memory){
                 print("Error: Could not load command file '%s'.\n", option_cstring + 1);
                 return 0;
             }
diff --git a/src/main.c b/src/main.c
index 72bad53..7e7c653 100644
--- a/src/main.c
+++ b/src/main.c
@@ -2730,11 +2730,10 @@ func void reset_context(struct context *context){
     context->pragma_pack_stack.first = context->pragma_pack_stack.last = null;
 }
 
-static void write_to_preprocessed_file(char *data, smm size){
+static void write_to_preprocessed_file(struct context *context, char *data, smm size){
     DWORD bytes_written = 0;
     if(size && (!WriteFile(globals.preprocessed_file_handle, data, (DWORD)size, &bytes_written, 0) || bytes_written != (DWORD)size)){
-        print("Error: Could not write the preprocessed file.\n");
-        globals.an_error_has_occurred = true;
+        report_error(context, null, "Error: Could not write the preprocessed file.");
     }
 }
 
@@ -2891,7 +2890,7 @@ func void worker_preprocess_file(struct context *context, struct work_queue_entr
         
         smm preprocessed_file_size = (char *)arena_current(&context->scratch) - preprocessed_file_start;
         
-        write_to_preprocessed_file(preprocessed_file_start, preprocessed_file_size);
+        write_to_preprocessed_file(context, preprocessed_file_start, preprocessed_file_size);
         return;
     }
     
@@ -5017,12 +5016,12 @@ globals.typedef_##postfix = (struct ast_type){
         
         for(struct alternate_name *name = globals.alternate_names.first; name; name = name->next){
             struct string line = push_format_string(context->arena, "#pragma comment(linker, \"/ALTERNATENAME:%.*s=%.*s\")\n", name->source.size, name->source.data, name->destination.size, name->destination.data);
-            write_to_preprocessed_file((char *)line.data, line.size);
+            write_to_preprocessed_file(context, (char *)line.data, line.size);
         }
         
         for(struct specified_library *library = globals.specified_libraries.first; library; library = library->next){
             struct string line = push_format_string(context->arena, "#pragma comment(lib, \"%.*s\")\n", library->library_path.size, library->library_path.data);
-            write_to_preprocessed_file((char *)line.data, line.size);
+            write_to_preprocessed_file(context, (char *)line.data, line.size);
         }
         
         return globals.an_error_has_occurred ? 1 : 0;
-- 
2.43.0


From 2a20858a65e25dd661c2b118e62c231c334c4357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:54 +0000
Subject: [PATCH 130/157] fix: unwind information was written for local
 functions which are not part of the image

---
 src/coff_writer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/coff_writer.c b/src/coff_writer.c
index d366f18..2475804 100644
--- a/src/coff_writer.c
+++ b/src/coff_writer.c
@@ -722,6 +722,9 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
             
             if(function->type->flags & FUNCTION_TYPE_FLAGS_is_inline_asm) continue;
             
+            // There is no code for local functions which are not reachable.
+            if(!(function->as_decl.flags & DECLARATION_FLAGS_is_reachable_from_entry)) continue;
+            
             ast_list_append(&defined_functions, scratch, &function->kind);
             
             for_ast_list(function->static_variables){
-- 
2.43.0


From eae1b431247220bcd95d64cc31417102a8d6ba21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:00 +0000
Subject: [PATCH 131/157] fix: failing to write the pragmas of the preprocessed
 file was not reported

---
 src/main.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 7e7c653..fed8463 100644
--- a/src/main.c
+++ b/src/main.c
@@ -5024,7 +5024,11 @@ globals.typedef_##postfix = (struct ast_type){
             write_to_preprocessed_file(context, (char *)line.data, line.size);
         }
         
-        return globals.an_error_has_occurred ? 1 : 0;
+        if(context->error){
+            globals.an_error_has_occurred = true;
+            goto end;
+        }
+        return 0;
     }
     
 #if 0
-- 
2.43.0


From 466479c03cbed655b5ecdd74031e5abe405d1ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:34 +0000
Subject: [PATCH 132/157] fix: conditional jumps in exception filters crashed
 the compiler

---
 src/parse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index 0ec11e3..a721cac 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -10023,6 +10023,9 @@ func void parse_statement(struct context *context){
                     
                     push_ir(context, IR_return);
                     
+                    // The labels of the filter are numbered together with the ones of the function around it.
+                    filter_function->amount_of_jump_labels = context->jump_label_index;
+                    
                     filter_function->end_in_ir_arena = arena_current(&context->ir_arena);
                     filter_scope->end_offset = (u32)(filter_function->end_in_ir_arena - filter_function->start_in_ir_arena);
                     
-- 
2.43.0


From 561ed23b501373f7b8c2bdd7d0b4525ccbfebafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:58 +0000
Subject: [PATCH 133/157] fix: local functions were missing in object files

---
 src/obj_writer.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index 18ccdba..ab4f10f 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -1314,6 +1314,30 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
         }
     }
     
+    // Add the local functions and exception filters, these are by definition defined and never visible outside of this object.
+    for(smm thread_index = 0; thread_index < globals.thread_count; thread_index++){
+        struct context *thread_context = globals.thread_infos[thread_index].context;
+        
+        for_ast_list(thread_context->local_functions){
+            struct ast_function *function = (struct ast_function *)it->value;
+            
+            if(!(function->as_decl.flags & DECLARATION_FLAGS_is_reachable_from_entry)) continue;
+            if(function->type->flags & FUNCTION_TYPE_FLAGS_is_inline_asm) continue;
+            
+            function->as_decl.flags |= DECLARATION_FLAGS_is_static;
+            ast_list_append(&defined_functions, scratch, &function->kind);
+            
+            for(struct ast_list_node *variable_node = function->static_variables.first; variable_node; variable_node = variable_node->next){
+                struct ast_declaration *static_decl = (struct ast_declaration *)variable_node->value;
+                if(static_decl->flags & DECLARATION_FLAGS_is_thread_local){
+                    ast_list_append(&tls_variables, scratch, variable_node->value);
+                }else{
+                    ast_list_append(&defined_variables, scratch, variable_node->value);
+                }
+            }
+        }
+    }
+    
     struct ast_list global_struct_and_array_literals = zero_struct;
     
     for(smm thread_index = 0; thread_index < globals.thread_count; thread_index++){
-- 
2.43.0


From ed6637fb0dbd708c519f6236a911d037c699b436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:56 +0000
Subject: [PATCH 134/157] fix: the scope tables of __try blocks were not
 relocated in object files

---
 src/obj_writer.c | 72 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 72 insertions(+)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index ab4f10f..1fcd9db 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -3140,6 +3140,78 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
             
             relocation_at += 3;
         }
+        
+        // .xdata relocations:
+        // 
+        // The unwind information of a function which uses '__try' is followed by the address of the exception handler
+        // and a scope table. All of these are relative virtual addresses and hence need relocations.
+        
+        smm amount_of_xdata_relocations = 0;
+        for_ast_list(defined_functions){
+            struct ast_function *function = (struct ast_function *)it->value;
+            
+            if(function->seh_exception_handler) amount_of_xdata_relocations += 1;
+            for(struct seh_exception_handler *handler = function->seh_exception_handler; handler; handler = handler->next) amount_of_xdata_relocations += 4;
+        }
+        
+        if(amount_of_xdata_relocations){
+            xdata->pointer_to_relocations = (u32)(arena_current(arena) - obj_base_address);
+            
+            if(amount_of_xdata_relocations <= 0xffff){
+                xdata->number_of_relocations = (u16)amount_of_xdata_relocations;
+            }else{
+                assert(amount_of_xdata_relocations < 0xffffffff);
+                
+                // :relocation_overflow same as for .pdata above.
+                xdata->characteristics |= /*IMAGE_SCN_LNK_NRELOC_OVFL*/0x01000000;
+                xdata->number_of_relocations = 0xffff;
+                
+                struct coff_relocation *relocation = (void *)push_data(arena, u8, 10);
+                relocation->relocation_type = 0; // The relocation is ignored.
+                relocation->destination_offset_in_section = (u32)(amount_of_xdata_relocations + 1);
+            }
+            
+            u8 *xdata_base = obj_base_address + xdata->pointer_to_raw_data;
+            u8 *unwind_data = xdata_base;
+            
+            struct ast_function *C_specific_handler = globals.C_specific_handler_declaration;
+            u32 handler_is_stub = (C_specific_handler->as_decl.flags & DECLARATION_FLAGS_need_dllimport_stub_function) != 0;
+            
+            for_ast_list(defined_functions){
+                struct ast_function *function = (struct ast_function *)it->value;
+                
+                u8 count_of_codes = unwind_data[2];
+                unwind_data += 4 + (count_of_codes + (count_of_codes & 1)) * 2;
+                if(!function->seh_exception_handler) continue;
+                
+                {
+                    struct coff_relocation *relocation = (void *)push_data(arena, u8, 10);
+                    relocation->relocation_type = /*ADDR32NB*/3;
+                    relocation->destination_offset_in_section = (u32)(unwind_data - xdata_base);
+                    relocation->source_symbol_table_index     = (u32)C_specific_handler->symbol_table_index + handler_is_stub;
+                    *(u32 *)unwind_data = 0;
+                }
+                
+                unwind_data += 8; // The handler and the count.
+                
+                for(struct seh_exception_handler *handler = function->seh_exception_handler; handler; handler = handler->next){
+                    // @note: We need the offset of the source to already be applied to the data.
+                    u32 *scope_entry = (u32 *)unwind_data;
+                    scope_entry[0] = handler->start_offset_in_function; // BeginAddress
+                    scope_entry[1] = handler->end_offset_in_function;   // EndAddress
+                    scope_entry[2] = 0;                                 // HandlerAddress
+                    scope_entry[3] = handler->end_offset_in_function;   // JumpTarget
+                    
+                    for(u32 index = 0; index < 4; index++){
+                        struct coff_relocation *relocation = (void *)push_data(arena, u8, 10);
+                        relocation->relocation_type = /*ADDR32NB*/3;
+                        relocation->destination_offset_in_section = (u32)(unwind_data - xdata_base);
+                        relocation->source_symbol_table_index     = (u32)((index == 2) ? handler->filter_function->symbol_table_index : function->symbol_table_index);
+                        unwind_data += 4;
+                    }
+                }
+            }
+        }
     }
     
     if(amount_of_debug_symbols_relocations){
-- 
2.43.0


From 6fc2db54561d2739f7924600ae3f2117c74ec92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:46 +0000
Subject: [PATCH 135/157] fix: the path of the compiler in the PDB was not
 zero-terminated

---
 src/coff_writer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coff_writer.c b/src/coff_writer.c
index 2475804..6279b73 100644
--- a/src/coff_writer.c
+++ b/src/coff_writer.c
@@ -2520,7 +2520,7 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
                 char *ModuleFileName = push_uninitialized_data(&ipi_stream, char, MAX_PATH + 1);
                 smm ModuleFileNameLength = GetModuleFileNameA(null, ModuleFileName, MAX_PATH + 1); // @cleanup: What about utf-8?
                 ModuleFileName[ModuleFileNameLength] = 0;
-                ipi_stream.current -= (MAX_PATH + 1) - ModuleFileNameLength;
+                ipi_stream.current -= (MAX_PATH + 1) - (ModuleFileNameLength + 1);
                 
                 end_id_record();
             }
-- 
2.43.0


From 869a5e8e800aaca9cd95078d6a1b8a7a82615945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:46 +0000
Subject: [PATCH 136/157] fix: the debug types of char * and unsigned char *
 were swapped

---
 src/obj_writer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index 1fcd9db..8a0d5f9 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -25,10 +25,10 @@ enum CV_basic_type{
     //CV_u8_pointer = 0x0169,
     
     // char *
-    CV_s8_pointer = 0x0620,
+    CV_s8_pointer = 0x0670,
     
     // unsigned char *
-    CV_u8_pointer = 0x0670,
+    CV_u8_pointer = 0x0620,
 };
 
 void push_f3f2f1_align(struct memory_arena *arena, u32 alignment){
-- 
2.43.0


From 4d1dd012478bb0d2b6578490bb5641fa126710bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:46 +0000
Subject: [PATCH 137/157] fix: the debug symbols of global and static variables
 were swapped in object files

---
 src/obj_writer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index 8a0d5f9..8d75fcf 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -2334,7 +2334,7 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
                             u8  identifier[];
                         } *data_symbol = push_struct_(arena, offset_in_type(struct codeview_data32, identifier) + (decl->identifier->length + 1), 4);
                         
-                        u16 kind = ((decl->flags & DECLARATION_FLAGS_is_thread_local) ? /*S_LTHREAD32*/0x1112 : /* S_LDATA32 */ 0x110c) + ((decl->flags & DECLARATION_FLAGS_is_static) != 0);
+                        u16 kind = ((decl->flags & DECLARATION_FLAGS_is_thread_local) ? /*S_LTHREAD32*/0x1112 : /* S_LDATA32 */ 0x110c) + ((decl->flags & DECLARATION_FLAGS_is_static) == 0);
                         data_symbol->kind = kind;
                         data_symbol->type_index = decl->type->pdb_type_index;
                         memcpy(data_symbol->identifier, decl->identifier->data, decl->identifier->length);
-- 
2.43.0


From b9aecb7b1500444c406a8497cbad0c89de5cd964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:46 +0000
Subject: [PATCH 138/157] fix: negative enum constants had 64-bit unsigned
 values in the debug symbols of object files

---
 src/obj_writer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index 8d75fcf..58da8f3 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -2291,7 +2291,7 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
                         u16 *length = push_struct(arena, u16);
                         *push_struct(arena, u16) = /*S_CONSTANT*/0x1107;
                         *push_struct(arena, u32) = enum_type_index;
-                        push_unsigned_number_leaf(arena, value);
+                        push_signed_number_leaf(arena, value);
                         push_zero_terminated_string_copy(arena, decl->identifier->string);
                         push_f3f2f1_align(arena, sizeof(u32));
                         *length = (u16)(arena_current(arena)- (u8 *)(length + 1));
-- 
2.43.0


From 0f298f6ce92cfe31a02a11250d885b6d86720971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:46 +0000
Subject: [PATCH 139/157] fix: the debug types of structures counted members
 which are not in their field list

---
 src/obj_writer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index 58da8f3..c3cb04b 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -359,6 +359,7 @@ void register_type(u32 *inout_type_index, struct memory_arena *arena, struct mem
                 // 
                 
                 u32 fieldlist_type_index = begin_type_record(/*LF_FIELDLIST*/0x1203);
+                u32 amount_of_fields = 0;
                 
                 for(u32 member_index = 0; member_index < compound->amount_of_members; member_index++){
                     struct compound_member *member = &compound->members[member_index];
@@ -409,6 +410,7 @@ void register_type(u32 *inout_type_index, struct memory_arena *arena, struct mem
                     push_unsigned_number_leaf(arena, member->offset_in_type);
                     push_zero_terminated_string_copy(arena, member->name->string);
                     push_f3f2f1_align(arena, sizeof(u32));
+                    amount_of_fields += 1;
                 }
                 
                 end_type_record();
@@ -416,7 +418,7 @@ void register_type(u32 *inout_type_index, struct memory_arena *arena, struct mem
                 u16 lf_kind = current_type->kind == AST_struct ? /*LF_STRUCTURE*/0x1505 : /*LF_UNION*/0x1506;
                 type_index = begin_type_record(lf_kind);
                 
-                *push_struct(arena, u16) = (u16)compound->amount_of_members;
+                *push_struct(arena, u16) = (u16)amount_of_fields;
                 *push_struct(arena, u16) = /*properties*/0;
                 *push_struct(arena, u32) = fieldlist_type_index;
                 if(lf_kind == /*LF_STRUCTURE*/0x1505){
-- 
2.43.0


From a807e83d36143cc6d2f4d10e9592ede9a5b20bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:18 +0000
Subject: [PATCH 140/157] fix: the debug symbols of enum constants below -32768
 were padded inside of the record

---
 src/obj_writer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index c3cb04b..a8b224c 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -79,10 +79,10 @@ void push_signed_number_leaf(struct memory_arena *arena, s64 value){
             *push_struct(arena, u16) = (u16)value;
         }else if(value >= s32_min){
             *push_struct(arena, u16) = 0x8003; // LF_LONG
-            *push_struct(arena, u32) = (u32)value;
+            *push_struct_unaligned(arena, u32) = (u32)value;
         }else{
             *push_struct(arena, u16) = 0x8009; // LF_QUADWORD
-            *push_struct(arena, s64) = value;
+            *push_struct_unaligned(arena, s64) = value;
         }
     }
 }
-- 
2.43.0


From e4a9cfa33cb94dbba0949332d8b683bc9440a8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:18 +0000
Subject: [PATCH 141/157] fix: the debug information of struct arguments passed
 by reference described the pointer to them as the struct

---
 src/ast.c        |  2 ++
 src/obj_writer.c | 26 +++++++++++++++++++++++++-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/ast.c b/src/ast.c
index 7fe2110..1b969fc 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -572,6 +572,8 @@ struct ast_declaration{
         struct declaration_reference_node *first;
         struct declaration_reference_node *last;
     } referenced_declarations;
+    
+    u32 pdb_reference_type_index; // The type index of 'type &', if this is a big function argument.
 };
 
 struct declaration_list{
diff --git a/src/obj_writer.c b/src/obj_writer.c
index a8b224c..fdd99b2 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -623,6 +623,28 @@ void register_type(u32 *inout_type_index, struct memory_arena *arena, struct mem
     end_temporary_memory(temp);
 }
 
+void register_reference_type_for_big_function_argument(u32 *inout_type_index, struct memory_arena *arena, struct ast_declaration *decl){
+    if(!(decl->flags & DECLARATION_FLAGS_is_big_function_argument)) return;
+    
+    // 
+    // :PassingStructArguments
+    // 
+    // The stack slot of the argument contains a pointer to the value, hence we describe it as a reference.
+    // 
+    struct codeview_pointer_type{
+        u16 length;
+        u16 kind;
+        u32 pointer_to;
+        u32 attributes;
+    } *reference = push_struct(arena, struct codeview_pointer_type);
+    reference->length     = sizeof(*reference) - sizeof(reference->length);
+    reference->kind       = /*LF_POINTER*/0x1002;
+    reference->pointer_to = decl->type->pdb_type_index;
+    reference->attributes = /*modifiers (size = 8, mode = lvalue reference, kind = __ptr64)*/0x1002c;
+    
+    decl->pdb_reference_type_index = (*inout_type_index)++;
+}
+
 u32 register_all_types(struct memory_arena *arena, struct memory_arena *scratch, struct memory_arena *stack_arena, struct ast_list defined_functions){
     
     u32 type_index_allocator = 0x1000;
@@ -705,6 +727,7 @@ u32 register_all_types(struct memory_arena *arena, struct memory_arena *scratch,
                 struct ast_declaration *decl = scope->declarations[declaration_index];
                 if(!decl) continue;
                 register_type(&type_index_allocator, arena, scratch, decl->type);
+                register_reference_type_for_big_function_argument(&type_index_allocator, arena, decl);
             }
             
             for(smm compound_index = 0; compound_index < scope->current_max_amount_of_compound_types; compound_index++){
@@ -819,7 +842,7 @@ void codeview_emit_debug_information_for_function__recursive(struct ast_function
             
             regrel->kind = /*S_REGREL32*/0x1111;
             regrel->offset_of_register = (s32)(-decl->offset_on_stack);
-            regrel->type_index = decl->type->pdb_type_index;
+            regrel->type_index = decl->pdb_reference_type_index ? decl->pdb_reference_type_index : decl->type->pdb_type_index;
             regrel->register_index = /*CV_AMD64_RBP*/334;
             memcpy(regrel->identifier, decl->identifier->string.data, decl->identifier->string.size);
             regrel->identifier[decl->identifier->string.size] = 0;
@@ -2015,6 +2038,7 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
                     struct ast_declaration *decl = scope->declarations[declaration_index];
                     if(!decl) continue;
                     register_type(&type_index_allocator, arena, scratch, decl->type);
+                    register_reference_type_for_big_function_argument(&type_index_allocator, arena, decl);
                 }
                 
                 for(smm compound_index = 0; compound_index < scope->current_max_amount_of_compound_types; compound_index++){
-- 
2.43.0


From 3548bf48a34295f5e008a2e7bc50d511f0382898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:12 +0000
Subject: [PATCH 142/157] fix: the function ids in object files had no types

---
 src/obj_writer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index fdd99b2..4868e64 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -1994,7 +1994,7 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
                     continue;
                 }
                 
-                if(*ast == IR_declaration){
+                if(*ast == IR_declaration || *ast == IR_function){
                     
                     // For dllimports, the defining dll has the declaration and type information.
                     if(decl->flags & DECLARATION_FLAGS_is_dllimport) continue;
-- 
2.43.0


From ae8e2ccb8e17b5b8ec032e111cd10b84e64f33f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:06 +0000
Subject: [PATCH 143/157] fix: threads could enter a table of declarations or
 sleepers while another thread was growing it

---
 src/main.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/main.c b/src/main.c
index fed8463..1261477 100644
--- a/src/main.c
+++ b/src/main.c
@@ -103,6 +103,19 @@ struct ast_table{
 };
 
 
+func void enter_growable_table(s64 *is_locked_for_growing, s64 *threads_in_flight){
+    while(true){
+        atomic_preincrement(threads_in_flight);
+        
+        // A thread that wants to grow the table first locks it and then waits until there are no threads in flight.
+        // Hence, if the table is not locked at this point, it does not get grown until we are done.
+        if(!atomic_load(s64, *is_locked_for_growing)) break;
+        
+        atomic_predecrement(threads_in_flight);
+        while(atomic_load(s64, *is_locked_for_growing));
+    }
+}
+
 func struct ast_table ast_table_create(smm initial_capacity){
     struct ast_table ret = zero_struct;
     ret.capacity = initial_capacity;
@@ -180,7 +193,7 @@ func enum ast_kind *ast_table_add_or_return_previous_entry(struct ast_table *tab
         break;
     }
     
-    atomic_preincrement(&table->threads_in_flight);
+    enter_growable_table(&table->is_locked_for_growing, &table->threads_in_flight);
     
     // @WARNING: this portion needs to stay in sync with :c_compat_build_global_definition_table
     
@@ -219,9 +232,7 @@ func enum ast_kind *ast_table_add_or_return_previous_entry(struct ast_table *tab
 }
 
 func enum ast_kind *ast_table_get(struct ast_table *table, struct atom atom){
-    while(atomic_load(s64, table->is_locked_for_growing));
-    
-    atomic_preincrement(&table->threads_in_flight);
+    enter_growable_table(&table->is_locked_for_growing, &table->threads_in_flight);
     
     u64 index = atom.string_hash & table->mask;
     assert(index < table->capacity);
@@ -1395,7 +1406,7 @@ func void sleeper_table_maybe_grow(struct sleeper_table *table){
 func void sleeper_table_add(struct sleeper_table *table, struct work_queue_entry *entry, struct token *token, enum sleep_purpose sleep_purpose){
     sleeper_table_maybe_grow(table);
     
-    atomic_preincrement(&table->threads_in_flight);
+    enter_growable_table(&table->is_locked_for_growing, &table->threads_in_flight);
     
     assert(token);
     assert(entry);
@@ -1455,7 +1466,7 @@ func void sleeper_table_add(struct sleeper_table *table, struct work_queue_entry
 
 func u64 sleeper_table_delete(struct sleeper_table *table, struct token *token, enum sleep_purpose sleep_purpose){
     sleeper_table_maybe_grow(table);
-    atomic_preincrement(&table->threads_in_flight);
+    enter_growable_table(&table->is_locked_for_growing, &table->threads_in_flight);
     
     assert(token);
     
-- 
2.43.0


From c3b6e3751cdd3ad1ef5e3755a39ce560e29fceb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:06 +0000
Subject: [PATCH 144/157] fix: requeuing a work queue entry let another thread
 pop an entry which was already popped

---
 src/main.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 1261477..7a4d507 100644
--- a/src/main.c
+++ b/src/main.c
@@ -3313,7 +3313,13 @@ func void worker_parse_global_scope_entry(struct context *context, struct work_q
             if(is_static) sleeper_table = &context->current_compilation_unit->static_sleeper_table;
         }
         
-        sleeper_table_add(sleeper_table, work, sleep_on, context->sleep_purpose);
+        // @note: A queue entry cannot be pushed onto the queue a second time, because the compare and swap in 'work_queue_get_work'
+        //        could not distinguish it from the first time and would use an outdated 'next'.
+        struct work_queue_entry *sleeping_work = push_struct(context->arena, struct work_queue_entry);
+        sleeping_work->data = work->data;
+        sleeping_work->sleeping_on = work->sleeping_on;
+        
+        sleeper_table_add(sleeper_table, sleeping_work, sleep_on, context->sleep_purpose);
         return;
     }
     
-- 
2.43.0


From 4008b1e7b4a33781f58c7e1bd01955e23387dce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:06 +0000
Subject: [PATCH 145/157] fix: a wide string literal could share the misaligned
 storage of a narrow one

---
 src/coff_writer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/coff_writer.c b/src/coff_writer.c
index 6279b73..b462fe2 100644
--- a/src/coff_writer.c
+++ b/src/coff_writer.c
@@ -1421,10 +1421,12 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
                         //  1) The size is the size plus the null terminator.
                         //  2) The string is null terminated for element_size bytes.
                         //  3) The strings minus the null terminator match.
+                        //  4) The string is aligned for element_size (it might have been a string of smaller elements).
                         // 
                         if(string_table[index].size != string_literal.size + element_size) continue;
                         if(memcmp(string_table[index].data + string_literal.size, (char[]){0, 0, 0, 0}, element_size) != 0) continue;
                         if(memcmp(string_table[index].data, string_literal.data, string_literal.size) != 0) continue;
+                        if((u64)string_table[index].data & (element_size - 1)) continue;
                         
                         lit->relative_virtual_address = make_relative_virtual_address(rdata_section_start, string_table[index].data);
                         break;
-- 
2.43.0


From 90ca081e65111df084edaee6c3ffb93ae4569e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:10 +0000
Subject: [PATCH 146/157] fix: wcsstr found strings which differ in their last
 character

---
 implicit/include/runtime.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/implicit/include/runtime.c b/implicit/include/runtime.c
index b02624f..25e6de3 100644
--- a/implicit/include/runtime.c
+++ b/implicit/include/runtime.c
@@ -205,7 +205,9 @@ wchar_t *wcsstr(wchar_t *haystack, wchar_t *needle){
         
         // @note: We cannot overrun string1, as the zero-terminator would cause us to break.
         while(*string2){
-            if(*string1++ != *string2++) break;
+            if(*string1 != *string2) break;
+            string1++;
+            string2++;
         }
         
         if(!*string2) return haystack;
-- 
2.43.0


From fb4b5bd2855fd27e8822e2101b42d1516400fc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:10 +0000
Subject: [PATCH 147/157] fix: strrchr and wcsrchr looked behind the
 terminator, strrchr did not find characters above 127

---
 implicit/include/runtime.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/implicit/include/runtime.c b/implicit/include/runtime.c
index 25e6de3..b7f5564 100644
--- a/implicit/include/runtime.c
+++ b/implicit/include/runtime.c
@@ -188,9 +188,9 @@ char *strchr(char *haystack, int needle){
 
 char *strrchr(char *haystack, int needle){
     char *end = haystack;
-    while(*end++){};
-    while(end >= haystack && *end != needle) end--;
-    return end >= haystack ? end : 0;
+    while(*end) end++;
+    while(end > haystack && *end != (char)needle) end--;
+    return (*end == (char)needle) ? end : 0;
 }
 
 //_____________________________________________________________________________________________________________________
@@ -225,9 +225,9 @@ wchar_t *wcschr(wchar_t *haystack, wchar_t needle){
 
 wchar_t *wcsrchr(wchar_t *haystack, wchar_t needle){
     wchar_t *end = haystack;
-    while(*end++){};
-    while(end >= haystack && *end != needle) end--;
-    return end >= haystack ? end : 0;
+    while(*end) end++;
+    while(end > haystack && *end != needle) end--;
+    return (*end == needle) ? end : 0;
 }
 
 #endif
-- 
2.43.0


From 22878aa01cfc1496f4b532680e9228d680e2508c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:10 +0000
Subject: [PATCH 148/157] fix: wcschr did not find the terminator, strchr only
 for a needle of exactly 0

---
 implicit/include/runtime.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/implicit/include/runtime.c b/implicit/include/runtime.c
index b7f5564..82339d6 100644
--- a/implicit/include/runtime.c
+++ b/implicit/include/runtime.c
@@ -182,8 +182,7 @@ char *strstr(char *haystack, char *needle){
 
 char *strchr(char *haystack, int needle){
     while(*haystack && *haystack != (char)needle) haystack++;
-    if(needle == 0) return haystack;
-    return *haystack ? haystack : 0;
+    return (*haystack == (char)needle) ? haystack : 0;
 }
 
 char *strrchr(char *haystack, int needle){
@@ -220,7 +219,7 @@ wchar_t *wcsstr(wchar_t *haystack, wchar_t *needle){
 
 wchar_t *wcschr(wchar_t *haystack, wchar_t needle){
     while(*haystack && *haystack != needle) haystack++;
-    return *haystack ? haystack : 0;
+    return (*haystack == needle) ? haystack : 0;
 }
 
 wchar_t *wcsrchr(wchar_t *haystack, wchar_t needle){
-- 
2.43.0


From 1b78a796e7aace3edc211ff37d9da389e7341231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:10 +0000
Subject: [PATCH 149/157] fix: longjmp with the value 0 made setjmp return 0

---
 implicit/include/setjmp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/implicit/include/setjmp.c b/implicit/include/setjmp.c
index ac66cd9..1afb3e7 100644
--- a/implicit/include/setjmp.c
+++ b/implicit/include/setjmp.c
@@ -71,6 +71,9 @@ int setjmp(jmp_buf environment_buffer){
 
 _Noreturn void longjmp(jmp_buf environment_buffer, int return_value){
     
+    // "longjmp cannot cause the setjmp macro to return the value 0; if val is 0, the setjmp macro returns the value 1."
+    if(return_value == 0) return_value = 1;
+    
     __asm__{
         mov rcx, environment_buffer
         
-- 
2.43.0


From 2721fb4e6f221a4b2891c0163f0e4e996e7c59ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:10 +0000
Subject: [PATCH 150/157] fix: UINT32_MAX was a signed 64 bit constant

---
 implicit/include/stdint.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/include/stdint.h b/implicit/include/stdint.h
index 7373eb7..ed9a926 100644
--- a/implicit/include/stdint.h
+++ b/implicit/include/stdint.h
@@ -42,7 +42,7 @@ typedef signed   __int64  intmax_t;
 
 #define UINT8_MAX 255
 #define UINT16_MAX 65535
-#define UINT32_MAX 4294967295
+#define UINT32_MAX 4294967295u
 #define UINT64_MAX 18446744073709551615
 
 #define INT8_MIN (-127-1)
-- 
2.43.0


From 4a545978a5d510510f7fcfb00333f94a895ff8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:23 +0000
Subject: [PATCH 151/157] fix: an array argument of '%p' of a printlike
 function was diagnosed as not being a pointer

---
 src/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index a721cac..efd56a7 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -3981,7 +3981,7 @@ static void parse_call_to_printlike_function_arguments(struct context *context,
                         report_warning(context, WARNING_incorrect_format_specifier, argument.token ,"Format length specifier '%s' does not apply to conversion specifier %c (%s%c is not a correct format string syntax).", (char *)&length_modifier, conversion_specifier, (char *)&length_modifier, conversion_specifier);
                     }
                     
-                    if(promoted_type->kind != AST_pointer_type){
+                    if(promoted_type->kind != AST_pointer_type && promoted_type->kind != AST_array_type){
                         struct string type_string = push_type_string(context->arena, &context->scratch, promoted_type);
                         report_warning(context, WARNING_incorrect_format_specifier, argument.token, "Format specifier '%%p' requires a pointer, but the argument is of type '%.*s'.", type_string.size, type_string.data);
                     }
-- 
2.43.0


From 2210122cb4b5ae818afd187a4ab9c713b18f2d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:17 +0000
Subject: [PATCH 152/157] fix: the value of a compound assignment was read
 again after a call in the same expression changed the object

---
 src/emit_x64.c | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index dc3caeb..a29820e 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -1859,8 +1859,8 @@ func struct emit_location *emit_divide_or_mod_or_multiply__internal(struct conte
     }
 }
 
-// An atomic operation for which the result is not used, does not have to produce a value.
-func b32 atomic_result_is_unused(struct ast_function *function, u8 *ir_arena_at){
+// An operation for which the result is not used, does not have to produce a value.
+func b32 result_is_unused(struct ast_function *function, u8 *ir_arena_at){
     return ir_arena_at < function->end_in_ir_arena && ((struct ir *)ir_arena_at)->kind == IR_pop_expression;
 }
 
@@ -4370,7 +4370,7 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 u8 extension = is_dec ? FF_DECREMENT_REGM : FF_INCREMENT_REGM;
                 u8 inst = (loc->size == 1) ? REG_EXTENDED_OPCODE_FE : REG_EXTENDED_OPCODE_FF;
                 
-                if(atomic_result_is_unused(current_function, ir_arena_at)){
+                if(result_is_unused(current_function, ir_arena_at)){
                     // lock inc/dec [loc]
                     emit_register_relative_extended(context, create_prefixes(ASM_PREFIX_lock), one_byte_opcode(inst), extension, loc);
                     break;
@@ -4713,7 +4713,7 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 struct emit_location *rhs = emit_location_stack[emit_location_stack_at - 1];
                 emit_location_stack_at -= 1;
                 
-                if(ir_kind >= IR_and_atomic_assignment_u8 && !atomic_result_is_unused(current_function, ir_arena_at)){
+                if(ir_kind >= IR_and_atomic_assignment_u8 && !result_is_unused(current_function, ir_arena_at)){
                     emit_location_stack[emit_location_stack_at - 1] = emit_atomic_compound_assignment_with_result(context, lhs, rhs, AND_REG8_REGM8, AND_REG_REGM);
                     break;
                 }
@@ -4730,7 +4730,7 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 struct emit_location *rhs = emit_location_stack[emit_location_stack_at - 1];
                 emit_location_stack_at -= 1;
                 
-                if(ir_kind >= IR_or_atomic_assignment_u8 && !atomic_result_is_unused(current_function, ir_arena_at)){
+                if(ir_kind >= IR_or_atomic_assignment_u8 && !result_is_unused(current_function, ir_arena_at)){
                     emit_location_stack[emit_location_stack_at - 1] = emit_atomic_compound_assignment_with_result(context, lhs, rhs, OR_REG8_REGM8, OR_REG_REGM);
                     break;
                 }
@@ -4747,7 +4747,7 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 struct emit_location *rhs = emit_location_stack[emit_location_stack_at - 1];
                 emit_location_stack_at -= 1;
                 
-                if(ir_kind >= IR_xor_atomic_assignment_u8 && !atomic_result_is_unused(current_function, ir_arena_at)){
+                if(ir_kind >= IR_xor_atomic_assignment_u8 && !result_is_unused(current_function, ir_arena_at)){
                     emit_location_stack[emit_location_stack_at - 1] = emit_atomic_compound_assignment_with_result(context, lhs, rhs, XOR_REG8_REGM8, XOR_REG_REGM);
                     break;
                 }
@@ -4765,7 +4765,7 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 struct emit_location *rhs = emit_location_stack[emit_location_stack_at - 1];
                 emit_location_stack_at -= 1;
                 
-                if(ir_kind >= IR_add_atomic_assignment_u8 && !atomic_result_is_unused(current_function, ir_arena_at)){
+                if(ir_kind >= IR_add_atomic_assignment_u8 && !result_is_unused(current_function, ir_arena_at)){
                     emit_location_stack[emit_location_stack_at - 1] = emit_atomic_compound_assignment_with_result(context, lhs, rhs, ADD_REG8_REGM8, ADD_REG_REGM);
                     break;
                 }
@@ -4792,7 +4792,7 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 struct emit_location *rhs = emit_location_stack[emit_location_stack_at - 1];
                 emit_location_stack_at -= 1;
                 
-                if(ir_kind >= IR_subtract_atomic_assignment_u8 && !atomic_result_is_unused(current_function, ir_arena_at)){
+                if(ir_kind >= IR_subtract_atomic_assignment_u8 && !result_is_unused(current_function, ir_arena_at)){
                     emit_location_stack[emit_location_stack_at - 1] = emit_atomic_compound_assignment_with_result(context, lhs, rhs, SUB_REG8_REGM8, SUB_REG_REGM);
                     break;
                 }
@@ -4955,6 +4955,20 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
             }break;
         }
         
+        if((IR_add_assignment_u8 <= ir_kind && ir_kind <= IR_right_shift_assignment_u64) || ir_kind == IR_store_bitfield){
+            // With respect to a function call, a compound assignment is a single evaluation (6.5.16.2):
+            // Load the value, so that it does not change, when a call in the same expression changes the object.
+            struct emit_location *result = emit_location_stack[emit_location_stack_at - 1];
+            if(result->state == EMIT_LOCATION_register_relative && !result_is_unused(current_function, ir_arena_at)){
+                int is_float = 0;
+                is_float |= (ir_kind == IR_add_assignment_f32)      || (ir_kind == IR_add_assignment_f64);
+                is_float |= (ir_kind == IR_subtract_assignment_f32) || (ir_kind == IR_subtract_assignment_f64);
+                is_float |= (ir_kind == IR_multiply_assignment_f32) || (ir_kind == IR_multiply_assignment_f64);
+                is_float |= (ir_kind == IR_divide_assignment_f32)   || (ir_kind == IR_divide_assignment_f64);
+                emit_location_stack[emit_location_stack_at - 1] = is_float ? emit_load_float(context, result) : emit_load_gpr(context, result);
+            }
+        }
+        
         assert(ir_arena_at != (u8 *)ir); // We should increment ir_arena_at.
         if(emit_location_stack_at >= emit_location_stack_size){
             assert(emit_location_stack_at == emit_location_stack_size);
-- 
2.43.0


From 1060b4e4d0fb7d15db6f1c07c7e8c558f46b8823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:49 +0000
Subject: [PATCH 153/157] fix: string_eat_line read behind the end of an empty
 string

---
 implicit/include/hlc/string.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/implicit/include/hlc/string.c b/implicit/include/hlc/string.c
index 092a74d..c499887 100644
--- a/implicit/include/hlc/string.c
+++ b/implicit/include/hlc/string.c
@@ -34,11 +34,11 @@ struct string string_eat_front(struct string *string, u64 amount_to_eat){
 struct string string_eat_line(struct string *string){
     
     u64 index = 0;
-    for(; index < (string->size - 1); index++){
-        if(string->data[index] == '\n') break;
+    while(index < string->size){
+        if(string->data[index++] == '\n') break;
     }
     
-    return string_eat_front(string, index + 1);
+    return string_eat_front(string, index);
 }
 
 struct string string_eat_whitespace(struct string *string){
-- 
2.43.0


From 93d44b1083f57f17184afe9cdf73a7191c2b7733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:20 +0000
Subject: [PATCH 154/157] fix: hlc/simple_file.h did not compile, u64 and
 malloc were undeclared

---
 implicit/include/hlc/simple_file.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/implicit/include/hlc/simple_file.c b/implicit/include/hlc/simple_file.c
index 9adde01..d535b93 100644
--- a/implicit/include/hlc/simple_file.c
+++ b/implicit/include/hlc/simple_file.c
@@ -1,5 +1,8 @@
 
+#pragma compilation_unit("core.c")
+
 #include <stdio.h>
+#include <stdlib.h>
 
 
 struct string{
-- 
2.43.0


From 4769473fa565ba948a5585aae6e933c44130afbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:20 +0000
Subject: [PATCH 155/157] fix: hlc/memory_arena.h alone did not compile, memset
 was undeclared

---
 implicit/include/hlc/memory_arena.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/implicit/include/hlc/memory_arena.c b/implicit/include/hlc/memory_arena.c
index 00c3ad4..fd68324 100644
--- a/implicit/include/hlc/memory_arena.c
+++ b/implicit/include/hlc/memory_arena.c
@@ -6,6 +6,7 @@
 #include "assert.h"
 
 #pragma compilation_unit("core.c")
+#pragma compilation_unit("../runtime.c")
 
 __declspec(dllimport) void *VirtualAlloc(void *Address, size_t Size, u32 AllocationType, u32 Protect);
 
-- 
2.43.0


From caf484308da8310482fbcc925b0a048cc5028d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:37 +0000
Subject: [PATCH 156/157] fix: the piece shown of a malformed print format was
 sized as if the string went on behind its end

---
 src/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index efd56a7..6a3fd60 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -4150,7 +4150,7 @@ static void parse_call_to_printlike_function_arguments(struct context *context,
                 
                 struct string format_specifier = {
                     .data = start.data + start.size,
-                    .size = (format_string.data + format_string.size) - start.data + start.size,
+                    .size = (format_string.data + format_string.size) - (start.data + start.size),
                 };
                 
                 // Scan up to the end of the specifier.
-- 
2.43.0


From 07bea391aa9f914be69556a54f4eba1961d0aef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:35 +0000
Subject: [PATCH 157/157] fix: names longer than a debug information record
 made malformed objects or an assertion fire

---
 src/coff_writer.c | 28 ++++++++++++++----------
 src/obj_writer.c  | 56 ++++++++++++++++++++++++++++++-----------------
 2 files changed, 52 insertions(+), 32 deletions(-)

diff --git a/src/coff_writer.c b/src/coff_writer.c
index b462fe2..c93f1e4 100644
--- a/src/coff_writer.c
+++ b/src/coff_writer.c
@@ -276,6 +276,8 @@ struct gsi_hash_bucket{
 
 func b32 global_symbol_stream_hash_table_add(struct gsi_hash_bucket **hash_table, struct memory_arena *scratch, u32 ref_offset, smm rva, struct string name){
     
+    name = codeview_name(name); // The name in the record this refers to.
+    
     u32 hash = pdb_string_hash(name);
     struct gsi_hash_bucket *new_bucket = push_struct(scratch, struct gsi_hash_bucket);
     new_bucket->hash = hash;
@@ -2489,7 +2491,7 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
             
             *push_struct(&ipi_stream, u32) = /*parent scope*/0; // @incomplete: look at a language with local procedures.
             *push_struct(&ipi_stream, u32) = function->type->base.pdb_type_index;
-            push_zero_terminated_string_copy(&ipi_stream, function->identifier->string);
+            push_zero_terminated_string_copy(&ipi_stream, codeview_name(function->identifier->string));
             
             end_id_record();
         }
@@ -2704,6 +2706,8 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
             
             begin_symbol_record(function_symbol_kind);
             
+            struct string name = codeview_name(function->identifier->string);
+            
             struct codeview_proc{
                 u32 pointer_to_parent;
                 u32 pointer_to_end;
@@ -2716,7 +2720,7 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
                 u16 section_id;
                 u8 procedure_flags;
                 u8 procedure_name[];
-            } *proc_symbol = push_struct_(&module_stream, offset_in_type(struct codeview_proc, procedure_name) + (function->identifier->length + 1), 4);
+            } *proc_symbol = push_struct_(&module_stream, offset_in_type(struct codeview_proc, procedure_name) + (name.size + 1), 4);
             proc_symbol->pointer_to_parent  = 0;
             proc_symbol->pointer_to_end     = 0;
             proc_symbol->pointer_to_next    = 0;
@@ -2727,8 +2731,8 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
             proc_symbol->offset_in_section  = (u32)function->offset_in_text_section;
             proc_symbol->section_id         = text_section_id;
             proc_symbol->procedure_flags    = 0; // Flags, somehow never present.
-            memcpy(proc_symbol->procedure_name, function->identifier->data, function->identifier->length);
-            proc_symbol->procedure_name[function->identifier->length] = 0;
+            memcpy(proc_symbol->procedure_name, name.data, name.size);
+            proc_symbol->procedure_name[name.size] = 0;
             
             end_symbol_record();
             
@@ -3098,7 +3102,7 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
                 *push_struct(&symbol_record_stream, u32) = 0;                                          // sumName < this appears to always be 0
                 *push_struct(&symbol_record_stream, u32) = function->debug_symbol_offset;              // offset in the module symbol stream
                 *push_struct(&symbol_record_stream, u16) = 1;                                          // module index of the stream containing the symbol
-                push_zero_terminated_string_copy(&symbol_record_stream, function->identifier->string); // name (not sure if this is mangled or not)
+                push_zero_terminated_string_copy(&symbol_record_stream, codeview_name(function->identifier->string)); // name (not sure if this is mangled or not)
             }end_symbol_record();
             
             gsi_amount_of_bucket_offsets += global_symbol_stream_hash_table_add(gsi_hash_table, scratch, ref_offset, function->relative_virtual_address, function->identifier->string);
@@ -3112,7 +3116,7 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
                     *push_struct(&symbol_record_stream, u32) = 2;                                          // flags (is_function)
                     *push_struct(&symbol_record_stream, u32) = (u32)function->offset_in_text_section;           // offset in segment
                     *push_struct(&symbol_record_stream, u16) = text_section_id;                            // segment
-                    push_zero_terminated_string_copy(&symbol_record_stream, function->identifier->string); // name
+                    push_zero_terminated_string_copy(&symbol_record_stream, codeview_name(function->identifier->string)); // name
                 }end_symbol_record();
                 
                 psi_amount_of_bucket_offsets += global_symbol_stream_hash_table_add(psi_hash_table, scratch, ref_offset, function->relative_virtual_address, function->identifier->string);
@@ -3132,7 +3136,7 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
                 *push_struct(&symbol_record_stream, u32) = 0;                            // flags
                 *push_struct(&symbol_record_stream, u32) = (u32)(rva - rdata->virtual_address); // offset in segment
                 *push_struct(&symbol_record_stream, u16) = rdata_section_id;             // segment
-                push_zero_terminated_string_copy(&symbol_record_stream, name);           // name
+                push_zero_terminated_string_copy(&symbol_record_stream, codeview_name(name));           // name
             }end_symbol_record();
             
             psi_amount_of_bucket_offsets += global_symbol_stream_hash_table_add(psi_hash_table, scratch, ref_offset, rva, name);
@@ -3152,7 +3156,7 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
                 *push_struct(&symbol_record_stream, u32) = 0;                           // flags
                 *push_struct(&symbol_record_stream, u32) = (u32)(rva - text->virtual_address); // offset in segment
                 *push_struct(&symbol_record_stream, u16) = text_section_id;             // segment
-                push_zero_terminated_string_copy(&symbol_record_stream, name);          // name
+                push_zero_terminated_string_copy(&symbol_record_stream, codeview_name(name));          // name
             }end_symbol_record();
             
             psi_amount_of_bucket_offsets += global_symbol_stream_hash_table_add(psi_hash_table, scratch, ref_offset, rva, name);
@@ -3175,7 +3179,7 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
                 begin_symbol_record(0x1107);{ // S_CONSTANT
                     *push_struct(&symbol_record_stream, u32) = ast_enum->base.pdb_type_index;
                     push_signed_number_leaf(&symbol_record_stream, value);
-                    push_zero_terminated_string_copy(&symbol_record_stream, member->name->string);
+                    push_zero_terminated_string_copy(&symbol_record_stream, codeview_name(member->name->string));
                 }end_symbol_record();
                 
                 gsi_amount_of_bucket_offsets += global_symbol_stream_hash_table_add(gsi_hash_table, scratch, ref_offset, 0, member->name->string);
@@ -3197,7 +3201,7 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
                 *push_struct(&symbol_record_stream, u32) = decl->type->pdb_type_index; // type_index
                 *push_struct(&symbol_record_stream, u32) = to_u32(rva - bss->virtual_address); // offset in section
                 *push_struct(&symbol_record_stream, u16) = bss_section_id;             // section id
-                push_zero_terminated_string_copy(&symbol_record_stream, decl->identifier->string);
+                push_zero_terminated_string_copy(&symbol_record_stream, codeview_name(decl->identifier->string));
             }end_symbol_record();
             
             gsi_amount_of_bucket_offsets += global_symbol_stream_hash_table_add(gsi_hash_table, scratch, ref_offset, rva, decl->identifier->string);
@@ -3217,7 +3221,7 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
                 *push_struct(&symbol_record_stream, u32) = decl->type->pdb_type_index; // type_index
                 *push_struct(&symbol_record_stream, u32) = to_u32(rva - data->virtual_address); // offset in section
                 *push_struct(&symbol_record_stream, u16) = data_section_id;             // section id
-                push_zero_terminated_string_copy(&symbol_record_stream, decl->identifier->string);
+                push_zero_terminated_string_copy(&symbol_record_stream, codeview_name(decl->identifier->string));
             }end_symbol_record();
             
             gsi_amount_of_bucket_offsets += global_symbol_stream_hash_table_add(gsi_hash_table, scratch, ref_offset, rva, decl->identifier->string);
@@ -3232,7 +3236,7 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
             u32 ref_offset = (u32)(symbol_record_stream.current - symbol_record_stream.base);
             begin_symbol_record(0x1108);{ // S_UDT
                 *push_struct(&symbol_record_stream, u32) = decl->type->pdb_type_index;
-                push_zero_terminated_string_copy(&symbol_record_stream, decl->identifier->string);
+                push_zero_terminated_string_copy(&symbol_record_stream, codeview_name(decl->identifier->string));
             } end_symbol_record();
             
             gsi_amount_of_bucket_offsets += global_symbol_stream_hash_table_add(gsi_hash_table, scratch, ref_offset, 0, decl->identifier->string);
diff --git a/src/obj_writer.c b/src/obj_writer.c
index 4868e64..77d491d 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -88,6 +88,16 @@ void push_signed_number_leaf(struct memory_arena *arena, s64 value){
 }
 
 
+func struct string codeview_name(struct string name){
+    
+    // 
+    // The length of a record has to fit in a u16, hence we have to truncate names which are too long.
+    // 
+    if(name.size > 0xf000) name.size = 0xf000;
+    
+    return name;
+}
+
 void register_type(u32 *inout_type_index, struct memory_arena *arena, struct memory_arena *scratch, struct ast_type *initial_type){
     
     // @cleanup: This description did not end up being very good, redo it once everything is in place.
@@ -224,7 +234,7 @@ void register_type(u32 *inout_type_index, struct memory_arena *arena, struct mem
                     maximum_size_needed += /*sizeof(attributes)*/2;
                     maximum_size_needed += /*sizeof(LF_LONG)*/2;
                     maximum_size_needed += /*sizeof(int)*/4;
-                    maximum_size_needed += member->name->size;
+                    maximum_size_needed += codeview_name(member->name->string).size;
                     maximum_size_needed += /*null-terminator*/1;
                     maximum_size_needed = (maximum_size_needed + 3) & ~3;
                     
@@ -265,7 +275,7 @@ void register_type(u32 *inout_type_index, struct memory_arena *arena, struct mem
                     *push_struct(arena, u16) = /*attributes*/3;
                     *push_struct(arena, u16) = /*LF_LONG*/0x8003; // @cleanup: push_signed_number_leaf();
                     *(u32 *)push_data(arena, u8, sizeof(u32)) = (u32)member->enum_value;
-                    push_zero_terminated_string_copy(arena, member->name->string);
+                    push_zero_terminated_string_copy(arena, codeview_name(member->name->string));
                     push_f3f2f1_align(arena, sizeof(u32));
                 }
                 
@@ -277,7 +287,7 @@ void register_type(u32 *inout_type_index, struct memory_arena *arena, struct mem
                 *push_struct(arena, u16) = /*properties*/0;
                 *push_struct(arena, u32) = /*underlying type*/CV_s32;
                 *push_struct(arena, u32) = fieldlist_type_index;
-                push_zero_terminated_string_copy(arena, ast_enum->identifier->string);
+                push_zero_terminated_string_copy(arena, codeview_name(ast_enum->identifier->string));
                 
                 end_type_record();
             }break;
@@ -311,7 +321,7 @@ void register_type(u32 *inout_type_index, struct memory_arena *arena, struct mem
                         *push_struct(arena, u16) = 0; // size (0 for forward ref)
                         
                         // @cleanup: this could overflow the header length field u16.
-                        push_zero_terminated_string_copy(arena, compound->identifier->string);
+                        push_zero_terminated_string_copy(arena, codeview_name(compound->identifier->string));
                         end_type_record();
                         current_type->pdb_type_index = predeclaration_type_index;
                     }
@@ -376,7 +386,7 @@ void register_type(u32 *inout_type_index, struct memory_arena *arena, struct mem
                     maximum_size_needed += /*sizeof(type_index)*/4;
                     maximum_size_needed += /*sizeof(LF_ULONGLONG)*/2;
                     maximum_size_needed += /*sizeof(u64)*/8;
-                    maximum_size_needed += member->name->size;
+                    maximum_size_needed += codeview_name(member->name->string).size;
                     maximum_size_needed = (maximum_size_needed + 3) & ~3;
                     
                     // 
@@ -408,7 +418,7 @@ void register_type(u32 *inout_type_index, struct memory_arena *arena, struct mem
                     *push_struct(arena, u16) = /*attributes*/3;
                     *push_struct(arena, u32) = member->type->pdb_type_index;
                     push_unsigned_number_leaf(arena, member->offset_in_type);
-                    push_zero_terminated_string_copy(arena, member->name->string);
+                    push_zero_terminated_string_copy(arena, codeview_name(member->name->string));
                     push_f3f2f1_align(arena, sizeof(u32));
                     amount_of_fields += 1;
                 }
@@ -426,7 +436,7 @@ void register_type(u32 *inout_type_index, struct memory_arena *arena, struct mem
                     *push_struct(arena, u32) = 0; // vshape
                 }
                 push_unsigned_number_leaf(arena, compound->base.size);
-                push_zero_terminated_string_copy(arena, compound->identifier->string);
+                push_zero_terminated_string_copy(arena, codeview_name(compound->identifier->string));
                 
                 end_type_record();
             }break;
@@ -600,7 +610,7 @@ void register_type(u32 *inout_type_index, struct memory_arena *arena, struct mem
                 struct string type_name = token_get_string(unresolved->sleeping_on);
                 
                 // @cleanup: this could overflow the header length field u16.
-                push_zero_terminated_string_copy(arena, type_name);
+                push_zero_terminated_string_copy(arena, codeview_name(type_name));
                 
                 end_type_record();
                 
@@ -831,6 +841,8 @@ void codeview_emit_debug_information_for_function__recursive(struct ast_function
             // It's a "normal" declaration.
             // 
             
+            struct string name = codeview_name(decl->identifier->string);
+            
             struct codeview_regrel32{
                 u16 length;
                 u16 kind;
@@ -838,14 +850,14 @@ void codeview_emit_debug_information_for_function__recursive(struct ast_function
                 u32 type_index;
                 u16 register_index;
                 u8 identifier[];
-            } *regrel = push_struct_(arena, offset_in_type(struct codeview_regrel32, identifier) + decl->identifier->string.size + 1, /*alignment*/4);
+            } *regrel = push_struct_(arena, offset_in_type(struct codeview_regrel32, identifier) + name.size + 1, /*alignment*/4);
             
             regrel->kind = /*S_REGREL32*/0x1111;
             regrel->offset_of_register = (s32)(-decl->offset_on_stack);
             regrel->type_index = decl->pdb_reference_type_index ? decl->pdb_reference_type_index : decl->type->pdb_type_index;
             regrel->register_index = /*CV_AMD64_RBP*/334;
-            memcpy(regrel->identifier, decl->identifier->string.data, decl->identifier->string.size);
-            regrel->identifier[decl->identifier->string.size] = 0;
+            memcpy(regrel->identifier, name.data, name.size);
+            regrel->identifier[name.size] = 0;
             
             push_f3f2f1_align(arena, sizeof(u32));
             regrel->length = (u16)(arena_current(arena) - (u8 *)&regrel->kind);
@@ -2080,7 +2092,7 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
             *push_struct(arena, u16) = /*LF_FUNC_ID*/0x1601;
             *push_struct(arena, u32) = /*parent scope*/0; // @incomplete: look at a language with local procedures.
             *push_struct(arena, u32) = function->type->base.pdb_type_index;
-            push_zero_terminated_string_copy(arena, function->identifier->string);
+            push_zero_terminated_string_copy(arena, codeview_name(function->identifier->string));
             push_f3f2f1_align(arena, sizeof(u32));
             *length = (u16)(arena_current(arena) - (u8 *)(length + 1)); // @cleanup: overflow.
         }
@@ -2228,6 +2240,8 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
                 u16 *proc32_length = push_struct(arena, u16);
                 *push_struct(arena, u16) = proc32_id;
                 
+                struct string name = codeview_name(function->identifier->string);
+                
                 struct codeview_proc{
                     u32 pointer_to_parent;
                     u32 pointer_to_end;
@@ -2240,7 +2254,7 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
                     u16 section_id;
                     u8 procedure_flags;
                     u8 procedure_name[];
-                } *proc_symbol = push_struct_(arena, offset_in_type(struct codeview_proc, procedure_name) + (function->identifier->length + 1), 4);
+                } *proc_symbol = push_struct_(arena, offset_in_type(struct codeview_proc, procedure_name) + (name.size + 1), 4);
                 proc_symbol->pointer_to_parent  = 0;
                 proc_symbol->pointer_to_end     = 0;
                 proc_symbol->pointer_to_next    = 0;
@@ -2251,8 +2265,8 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
                 proc_symbol->offset_in_section  = 0; // Filled in by a relocation
                 proc_symbol->section_id         = 0; // Filled in by a relocation
                 proc_symbol->procedure_flags    = 0;
-                memcpy(proc_symbol->procedure_name, function->identifier->data, function->identifier->length);
-                proc_symbol->procedure_name[function->identifier->length] = 0;
+                memcpy(proc_symbol->procedure_name, name.data, name.size);
+                proc_symbol->procedure_name[name.size] = 0;
                 
                 push_f3f2f1_align(arena, sizeof(u32));
                 *proc32_length = (u16)(arena_current(arena) - (u8 *)(proc32_length + 1));
@@ -2318,7 +2332,7 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
                         *push_struct(arena, u16) = /*S_CONSTANT*/0x1107;
                         *push_struct(arena, u32) = enum_type_index;
                         push_signed_number_leaf(arena, value);
-                        push_zero_terminated_string_copy(arena, decl->identifier->string);
+                        push_zero_terminated_string_copy(arena, codeview_name(decl->identifier->string));
                         push_f3f2f1_align(arena, sizeof(u32));
                         *length = (u16)(arena_current(arena)- (u8 *)(length + 1));
                         continue;
@@ -2333,7 +2347,7 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
                         u16 *length = push_struct(arena, u16);
                         *push_struct(arena, u16) = /*S_UDT*/0x1108;
                         *push_struct(arena, u32) = decl->type->pdb_type_index;
-                        push_zero_terminated_string_copy(arena, decl->identifier->string);
+                        push_zero_terminated_string_copy(arena, codeview_name(decl->identifier->string));
                         push_f3f2f1_align(arena, sizeof(u32));
                         *length = (u16)(arena_current(arena)- (u8 *)(length + 1));
                     }
@@ -2351,6 +2365,8 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
                         
                         assert(decl->type->pdb_type_index);
                         
+                        struct string name = codeview_name(decl->identifier->string);
+                        
                         struct codeview_data32{
                             u16 length;
                             u16 kind;
@@ -2358,13 +2374,13 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
                             u32 offset_in_section;
                             u16 section_id;
                             u8  identifier[];
-                        } *data_symbol = push_struct_(arena, offset_in_type(struct codeview_data32, identifier) + (decl->identifier->length + 1), 4);
+                        } *data_symbol = push_struct_(arena, offset_in_type(struct codeview_data32, identifier) + (name.size + 1), 4);
                         
                         u16 kind = ((decl->flags & DECLARATION_FLAGS_is_thread_local) ? /*S_LTHREAD32*/0x1112 : /* S_LDATA32 */ 0x110c) + ((decl->flags & DECLARATION_FLAGS_is_static) == 0);
                         data_symbol->kind = kind;
                         data_symbol->type_index = decl->type->pdb_type_index;
-                        memcpy(data_symbol->identifier, decl->identifier->data, decl->identifier->length);
-                        data_symbol->identifier[decl->identifier->length] = 0;
+                        memcpy(data_symbol->identifier, name.data, name.size);
+                        data_symbol->identifier[name.size] = 0;
                         
                         struct debug_symbols_relocation_info *relocation = push_struct(scratch, struct debug_symbols_relocation_info);
                         relocation->destination_offset = (u32)((u8 *)&data_symbol->offset_in_section - debug_symbols_base);
-- 
2.43.0

