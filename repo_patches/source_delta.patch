From f52f70532f8eecdd2b79807d782df25458131c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:55 +0000
Subject: [PATCH 001/149] fix: emit unsigned division for unsigned operands

---
 src/ir/ir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ir/ir.c b/src/ir/ir.c
index e94b179..a431ab8 100644
--- a/src/ir/ir.c
+++ b/src/ir/ir.c
@@ -556,7 +556,7 @@ struct node *ir_binary_op(int type, struct node *lhs, struct node *rhs) {
 	if (type == IR_IDIV)
 		return ir_idiv(lhs, rhs);
 	if (type == IR_DIV)
-		return ir_idiv(lhs, rhs);
+		return ir_div(lhs, rhs);
 	if (type == IR_MOD)
 		return ir_mod(lhs, rhs);
 	if (type == IR_IMOD)
-- 
2.43.0


From a2b85753236dcf7c540974e740203fada850b1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:02 +0000
Subject: [PATCH 002/149] fix: shift assignment uses the promoted type of the
 left operand

---
 src/parser/expression.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 68b9752..7764126 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -348,7 +348,17 @@ static void fix_assignment_operators(struct expr *expr) {
 	if (expr->type != E_ASSIGNMENT_OP)
 		return;
 
-	convert_arithmetic(&expr->args[0], &expr->args[1]);
+	if (expr->assignment_op.op == OP_LSHIFT ||
+		expr->assignment_op.op == OP_RSHIFT) {
+		// The type of a shift is the promoted type of the left operand.
+		// See 6.5.7.
+		struct expr *promoted = expr->args[0];
+		do_integer_promotion(&promoted);
+		expr->args[1] = expression_cast(expr->args[1], promoted->data_type);
+	} else {
+		convert_arithmetic(&expr->args[0], &expr->args[1]);
+	}
+
 	// Reduce double cast into single cast. Always correct in this case.
 	if (expr->args[0]->type == E_CAST) {
 		if (expr->args[0]->cast.arg->type == E_CAST)
-- 
2.43.0


From 87c0c7b1bc643a7600ab1da8b225144ff196391e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:24 +0000
Subject: [PATCH 003/149] fix: comparisons produce an int-sized value for
 operands of any size

---
 src/ir/ir.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ir/ir.c b/src/ir/ir.c
index a431ab8..5901215 100644
--- a/src/ir/ir.c
+++ b/src/ir/ir.c
@@ -561,6 +561,12 @@ struct node *ir_binary_op(int type, struct node *lhs, struct node *rhs) {
 		return ir_mod(lhs, rhs);
 	if (type == IR_IMOD)
 		return ir_imod(lhs, rhs);
+
+	// Comparisons have type int, independent of the size of the operands.
+	if ((type >= IR_LESS && type <= IR_NOT_EQUAL) ||
+		(type >= IR_FLT_LESS && type <= IR_FLT_NOT_EQUAL))
+		return ir_new2(type, lhs, rhs, 4);
+
 	return ir_new2(type, lhs, rhs, lhs->size);
 }
 
-- 
2.43.0


From df2638284a407257353080380722b4b2b1f9b533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:13 +0000
Subject: [PATCH 004/149] fix: floating comparisons with unordered operands

---
 src/assembler/instructions.h   |   2 +
 src/codegen/binary_operators.h | 112 ++++++++++++++++++++++-----------
 src/codegen/codegen.c          |   4 +-
 3 files changed, 81 insertions(+), 37 deletions(-)

diff --git a/src/assembler/instructions.h b/src/assembler/instructions.h
index 3e96129..73f4e49 100644
--- a/src/assembler/instructions.h
+++ b/src/assembler/instructions.h
@@ -206,6 +206,8 @@ struct encoding encodings[] = {
 	{"setle", 0x0f, .op2 = 0x9e, .operand_encoding = {{OE_MODRM_RM, 0}}, .operand_accepts = {A_MODRM(1)}},
 	{"setnb", 0x0f, .op2 = 0x93, .operand_encoding = {{OE_MODRM_RM, 0}}, .operand_accepts = {A_MODRM(1)}},
 	{"setne", 0x0f, .op2 = 0x95, .operand_encoding = {{OE_MODRM_RM, 0}}, .operand_accepts = {A_MODRM(1)}},
+	{"setnp", 0x0f, .op2 = 0x9b, .operand_encoding = {{OE_MODRM_RM, 0}}, .operand_accepts = {A_MODRM(1)}},
+	{"setp", 0x0f, .op2 = 0x9a, .operand_encoding = {{OE_MODRM_RM, 0}}, .operand_accepts = {A_MODRM(1)}},
 	
 	{"salq", 0xd3, .rex = 1, .rexw = 1, .modrm_extension = 4, .operand_encoding = {{OE_MODRM_RM, 0}, {OE_NONE, 0}}, .operand_accepts = {A_MODRM(8), A_RCX(1)}},
 	{"sall", 0xd3, .modrm_extension = 4, .operand_encoding = {{OE_MODRM_RM, 0}, {OE_NONE, 0}}, .operand_accepts = {A_MODRM(4), A_RCX(1)}},
diff --git a/src/codegen/binary_operators.h b/src/codegen/binary_operators.h
index d350bf6..c26564e 100644
--- a/src/codegen/binary_operators.h
+++ b/src/codegen/binary_operators.h
@@ -54,70 +54,112 @@
 		{"movzbl", {R1_(REG_RAX), R4_(REG_RAX)}},	\
 	}
 
+// The comparison "lhs < rhs" is computed as "rhs > lhs", since the
+// conditions for "above" are false when the operands are unordered.
+#define BINARY_COMP_FLT_SWAPPED_32(MNEMONIC) {		\
+		{"movd", {R4_(REG_RAX), XMM_(0)}},		\
+		{"movd", {R4_(REG_RCX), XMM_(1)}},		\
+		{"ucomiss", {XMM_(0), XMM_(1)}},		\
+		{MNEMONIC, {R1_(REG_RAX)}},				\
+		{"movzbl", {R1_(REG_RAX), R4_(REG_RAX)}},	\
+	}
+
+#define BINARY_COMP_FLT_SWAPPED_64(MNEMONIC) {		\
+		{"movq", {R8_(REG_RAX), XMM_(0)}},		\
+		{"movq", {R8_(REG_RCX), XMM_(1)}},		\
+		{"ucomisd", {XMM_(0), XMM_(1)}},		\
+		{MNEMONIC, {R1_(REG_RAX)}},				\
+		{"movzbl", {R1_(REG_RAX), R4_(REG_RAX)}},	\
+	}
+
+// Equality also has to look at the parity flag, which is set when the
+// operands are unordered.
+#define BINARY_EQ_FLT_32(MNEMONIC, PARITY, COMBINE) {	\
+		{"movd", {R4_(REG_RAX), XMM_(0)}},		\
+		{"movd", {R4_(REG_RCX), XMM_(1)}},		\
+		{"ucomiss", {XMM_(1), XMM_(0)}},		\
+		{MNEMONIC, {R1_(REG_RAX)}},				\
+		{PARITY, {R1_(REG_RCX)}},				\
+		{COMBINE, {R4_(REG_RCX), R4_(REG_RAX)}},	\
+		{"movzbl", {R1_(REG_RAX), R4_(REG_RAX)}},	\
+	}
+
+#define BINARY_EQ_FLT_64(MNEMONIC, PARITY, COMBINE) {	\
+		{"movq", {R8_(REG_RAX), XMM_(0)}},		\
+		{"movq", {R8_(REG_RCX), XMM_(1)}},		\
+		{"ucomisd", {XMM_(1), XMM_(0)}},		\
+		{MNEMONIC, {R1_(REG_RAX)}},				\
+		{PARITY, {R1_(REG_RCX)}},				\
+		{COMBINE, {R4_(REG_RCX), R4_(REG_RAX)}},	\
+		{"movzbl", {R1_(REG_RAX), R4_(REG_RAX)}},	\
+	}
+
 #define BINARY_INS(M32, M64) BINARY_INS_32(M32), BINARY_INS_64(M64)
 #define BINARY_COMP(M) BINARY_COMP_32(M), BINARY_COMP_64(M)
 #define BINARY_INS_FLT(M32, M64) BINARY_INS_FLT_32(M32), BINARY_INS_FLT_64(M64)
 #define BINARY_COMP_FLT(M) BINARY_COMP_FLT_32(M), BINARY_COMP_FLT_64(M)
+#define BINARY_COMP_FLT_SWAPPED(M) BINARY_COMP_FLT_SWAPPED_32(M), BINARY_COMP_FLT_SWAPPED_64(M)
+#define BINARY_EQ_FLT(M, P, C) BINARY_EQ_FLT_32(M, P, C), BINARY_EQ_FLT_64(M, P, C)
 
-static struct asm_instruction (*codegen_asm_table[IR_COUNT])[2][5] = {
-	[IR_ADD] = &(struct asm_instruction [2][5]) {BINARY_INS("addl", "addq")},
-	[IR_SUB] = &(struct asm_instruction [2][5]) { BINARY_INS("subl", "subq") },
-	[IR_IMUL] = &(struct asm_instruction [2][5]) { BINARY_INS("imull", "imulq") },
-	[IR_MUL] = &(struct asm_instruction [2][5]) { BINARY_INS("imull", "imulq") },
-	[IR_BXOR] = &(struct asm_instruction [2][5]) { BINARY_INS("xorl", "xorq") },
-	[IR_BOR] = &(struct asm_instruction [2][5]) { BINARY_INS("orl", "orq") },
-	[IR_BAND] = &(struct asm_instruction [2][5]) { BINARY_INS("andl", "andq") },
-	[IR_IDIV] = &(struct asm_instruction [2][5]) {
+static struct asm_instruction (*codegen_asm_table[IR_COUNT])[2][7] = {
+	[IR_ADD] = &(struct asm_instruction [2][7]) {BINARY_INS("addl", "addq")},
+	[IR_SUB] = &(struct asm_instruction [2][7]) { BINARY_INS("subl", "subq") },
+	[IR_IMUL] = &(struct asm_instruction [2][7]) { BINARY_INS("imull", "imulq") },
+	[IR_MUL] = &(struct asm_instruction [2][7]) { BINARY_INS("imull", "imulq") },
+	[IR_BXOR] = &(struct asm_instruction [2][7]) { BINARY_INS("xorl", "xorq") },
+	[IR_BOR] = &(struct asm_instruction [2][7]) { BINARY_INS("orl", "orq") },
+	[IR_BAND] = &(struct asm_instruction [2][7]) { BINARY_INS("andl", "andq") },
+	[IR_IDIV] = &(struct asm_instruction [2][7]) {
 		{{"cltd", { { 0 } }}, {"idivl", {R4_(REG_RCX)}}},
 		{{"cqto", { { 0 } }}, {"idivq", {R8_(REG_RCX)}}},
 	},
-	[IR_IMOD] = &(struct asm_instruction [2][5]) {
+	[IR_IMOD] = &(struct asm_instruction [2][7]) {
 		{{"cltd", { { 0 } }},
 		 {"idivl", {R4_(REG_RCX)}}, {"movl", {R4_(REG_RDX), R4_(REG_RAX)}}},
 		{{"cqto", { { 0 } }},
 		 {"idivq", {R8_(REG_RCX)}}, {"movq", {R8_(REG_RDX), R8_(REG_RAX)}}},
 	},
-	[IR_LSHIFT] = &(struct asm_instruction [2][5]) {
+	[IR_LSHIFT] = &(struct asm_instruction [2][7]) {
 		{{"sall", {R1_(REG_RCX), R4_(REG_RAX)}}},
 		{{"salq", {R1_(REG_RCX), R8_(REG_RAX)}}},
 	},
-	[IR_IRSHIFT] = &(struct asm_instruction [2][5]) {
+	[IR_IRSHIFT] = &(struct asm_instruction [2][7]) {
 		{{"sarl", {R1_(REG_RCX), R4_(REG_RAX)}}},
 		{{"sarq", {R1_(REG_RCX), R8_(REG_RAX)}}},
 	},
-	[IR_RSHIFT] = &(struct asm_instruction [2][5]) {
+	[IR_RSHIFT] = &(struct asm_instruction [2][7]) {
 		{{"shrl", {R1_(REG_RCX), R4_(REG_RAX)}}},
 		{{"shrq", {R1_(REG_RCX), R8_(REG_RAX)}}},
 	},
-	[IR_IGREATER] = &(struct asm_instruction [2][5]) { BINARY_COMP("setg") },
-	[IR_ILESS_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP("setle") },
-	[IR_ILESS] = &(struct asm_instruction [2][5]) { BINARY_COMP("setl") },
-	[IR_IGREATER_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP("setge") },
-	[IR_EQUAL] = &(struct asm_instruction [2][5]) { BINARY_COMP("sete") },
-	[IR_NOT_EQUAL] = &(struct asm_instruction [2][5]) { BINARY_COMP("setne") },
-	[IR_LESS] = &(struct asm_instruction [2][5]) { BINARY_COMP("setb") },
-	[IR_GREATER] = &(struct asm_instruction [2][5]) { BINARY_COMP("seta") },
-	[IR_LESS_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP("setbe") },
-	[IR_GREATER_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP("setnb") },
-	[IR_DIV] = &(struct asm_instruction [2][5]) {
+	[IR_IGREATER] = &(struct asm_instruction [2][7]) { BINARY_COMP("setg") },
+	[IR_ILESS_EQ] = &(struct asm_instruction [2][7]) { BINARY_COMP("setle") },
+	[IR_ILESS] = &(struct asm_instruction [2][7]) { BINARY_COMP("setl") },
+	[IR_IGREATER_EQ] = &(struct asm_instruction [2][7]) { BINARY_COMP("setge") },
+	[IR_EQUAL] = &(struct asm_instruction [2][7]) { BINARY_COMP("sete") },
+	[IR_NOT_EQUAL] = &(struct asm_instruction [2][7]) { BINARY_COMP("setne") },
+	[IR_LESS] = &(struct asm_instruction [2][7]) { BINARY_COMP("setb") },
+	[IR_GREATER] = &(struct asm_instruction [2][7]) { BINARY_COMP("seta") },
+	[IR_LESS_EQ] = &(struct asm_instruction [2][7]) { BINARY_COMP("setbe") },
+	[IR_GREATER_EQ] = &(struct asm_instruction [2][7]) { BINARY_COMP("setnb") },
+	[IR_DIV] = &(struct asm_instruction [2][7]) {
 		{{"xorq", {R8_(REG_RDX), R8_(REG_RDX)}}, {"divl", {R4_(REG_RCX)}}},
 		{{"xorq", {R8_(REG_RDX), R8_(REG_RDX)}}, {"divq", {R8_(REG_RCX)}}},
 	},
-	[IR_MOD] = &(struct asm_instruction [2][5]) {
+	[IR_MOD] = &(struct asm_instruction [2][7]) {
 		{{"xorq", {R8_(REG_RDX), R8_(REG_RDX)}}, {"divl", {R4_(REG_RCX)}}, {"movl", {R4_(REG_RDX), R4_(REG_RAX)}}},
 		{{"xorq", {R8_(REG_RDX), R8_(REG_RDX)}}, {"divq", {R8_(REG_RCX)}}, {"movq", {R8_(REG_RDX), R8_(REG_RAX)}}},
 	},
 
-	[IR_FLT_ADD] = &(struct asm_instruction [2][5]) { BINARY_INS_FLT("addss", "addsd") },
-	[IR_FLT_SUB] = &(struct asm_instruction [2][5]) { BINARY_INS_FLT("subss", "subsd") },
-	[IR_FLT_MUL] = &(struct asm_instruction [2][5]) { BINARY_INS_FLT("mulss", "mulsd") },
-	[IR_FLT_DIV] = &(struct asm_instruction [2][5]) { BINARY_INS_FLT("divss", "divsd") },
-	[IR_FLT_LESS] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("setb") },
-	[IR_FLT_GREATER] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("seta") },
-	[IR_FLT_LESS_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("setbe") },
-	[IR_FLT_GREATER_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("setnb") },
-	[IR_FLT_EQUAL] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("sete") },
-	[IR_FLT_NOT_EQUAL] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("setne") },
+	[IR_FLT_ADD] = &(struct asm_instruction [2][7]) { BINARY_INS_FLT("addss", "addsd") },
+	[IR_FLT_SUB] = &(struct asm_instruction [2][7]) { BINARY_INS_FLT("subss", "subsd") },
+	[IR_FLT_MUL] = &(struct asm_instruction [2][7]) { BINARY_INS_FLT("mulss", "mulsd") },
+	[IR_FLT_DIV] = &(struct asm_instruction [2][7]) { BINARY_INS_FLT("divss", "divsd") },
+	[IR_FLT_LESS] = &(struct asm_instruction [2][7]) { BINARY_COMP_FLT_SWAPPED("seta") },
+	[IR_FLT_GREATER] = &(struct asm_instruction [2][7]) { BINARY_COMP_FLT("seta") },
+	[IR_FLT_LESS_EQ] = &(struct asm_instruction [2][7]) { BINARY_COMP_FLT_SWAPPED("setnb") },
+	[IR_FLT_GREATER_EQ] = &(struct asm_instruction [2][7]) { BINARY_COMP_FLT("setnb") },
+	[IR_FLT_EQUAL] = &(struct asm_instruction [2][7]) { BINARY_EQ_FLT("sete", "setnp", "andl") },
+	[IR_FLT_NOT_EQUAL] = &(struct asm_instruction [2][7]) { BINARY_EQ_FLT("setne", "setp", "orl") },
 };
 
 #endif
diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index 2f30007..bd33f81 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -202,7 +202,7 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 	const char *ins_str = dbg_instruction(ins);
 	asm_comment("instruction start \"%s\":", ins_str);
 
-	struct asm_instruction (*asm_entry)[2][5] = codegen_asm_table[ins->type];
+	struct asm_instruction (*asm_entry)[2][7] = codegen_asm_table[ins->type];
 	if (asm_entry) {
 		struct node *output = ins;
 		if (ins->type == IR_DIV ||
@@ -219,7 +219,7 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 
 		struct asm_instruction *asms = (*asm_entry)[size == 8];
 
-		for (int i = 0; i < 5 && asms[i].mnemonic; i++)
+		for (int i = 0; i < 7 && asms[i].mnemonic; i++)
 			asm_ins(&asms[i]);
 
 		reg_to_scalar(REG_RAX, output);
-- 
2.43.0


From 4a753c83b4d5e12244c003702d8efaf7547d0f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:25 +0000
Subject: [PATCH 005/149] fix: controlling expressions and conversions to _Bool
 compare the whole value with zero

---
 src/parser/expression_to_ir.c | 21 ++++++++++++++++++---
 src/parser/expression_to_ir.h |  1 +
 src/parser/function_parser.c  |  8 ++++----
 3 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index b857abf..618cab4 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -126,6 +126,16 @@ struct node *evaluated_expression_to_var(struct evaluated_expression *evaluated_
 	}
 }
 
+// Returns a non-zero value if and only if the scalar compares unequal to 0.
+static struct node *variable_to_condition(struct node *var, struct type *type) {
+	if (!type_is_floating(type))
+		return var;
+
+	// Comparing the bits is not enough, since -0.0 is equal to 0.
+	struct node *zero = ir_constant(constant_cast(constant_simple_signed(ST_INT, 0), type));
+	return ir_binary_op(IR_FLT_NOT_EQUAL, var, zero);
+}
+
 static struct node *variable_cast(struct node *operand_var, struct type *operand_type, struct type *resulting_type) {
 	struct node *res = operand_var;
 
@@ -133,7 +143,7 @@ static struct node *variable_cast(struct node *operand_var, struct type *operand
 		return operand_var;
 
 	if (type_is_simple(resulting_type, ST_BOOL)) {
-		res = ir_bool_cast(operand_var);
+		res = ir_bool_cast(variable_to_condition(operand_var, operand_type));
 	} else if ((type_is_integer(resulting_type) || type_is_pointer(resulting_type)) &&
 			   (type_is_integer(operand_type) || type_is_pointer(operand_type))) {
 		if (calculate_size(resulting_type) != calculate_size(operand_type)) {
@@ -534,8 +544,7 @@ static struct evaluated_expression evaluate_assignment_op(struct expr *expr) {
 }
 
 static struct evaluated_expression evaluate_conditional(struct expr *expr) {
-	struct evaluated_expression condition = expression_evaluate(expr->args[0]);
-	struct node *condition_var = evaluated_expression_to_var(&condition);
+	struct node *condition_var = expression_to_condition(expr->args[0]);
 
 	int is_void = type_is_simple(expr->data_type, ST_VOID);
 
@@ -750,6 +759,12 @@ struct node *expression_to_int(struct expr *expr) {
 	return res;
 }
 
+struct node *expression_to_condition(struct expr *expr) {
+	struct evaluated_expression ee = expression_evaluate(expr);
+	struct node *res = evaluated_expression_to_var(&ee);
+	return variable_to_condition(res, ee.data_type);
+}
+
 void expression_to_void(struct expr *expr) {
 	expression_evaluate(expr);
 }
diff --git a/src/parser/expression_to_ir.h b/src/parser/expression_to_ir.h
index f8ed441..33fecc7 100644
--- a/src/parser/expression_to_ir.h
+++ b/src/parser/expression_to_ir.h
@@ -10,6 +10,7 @@ struct node *expression_to_ir_clear_temp(struct expr *expr);
 
 struct node *expression_to_size_t(struct expr *expr);
 struct node *expression_to_int(struct expr *expr);
+struct node *expression_to_condition(struct expr *expr);
 void expression_to_void(struct expr *expr);
 void expression_to_address(struct expr *expr, struct node *address);
 
diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 8ae4da8..d96d545 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -195,7 +195,7 @@ int parse_selection_statement(struct jump_blocks *jump_blocks) {
 		if(!expr)
 			ERROR(T0->pos, "Expected expression in if condition");
 
-		struct node *condition = expression_to_ir(expr);
+		struct node *condition = expression_to_condition(expr);
 
 		TEXPECT(T_RPAR);
 		struct node *block_true, *block_false;
@@ -257,7 +257,7 @@ static int parse_do_while_statement(struct jump_blocks *jump_blocks) {
 	if (!control_expression)
 		ERROR(T0->pos, "Expected expression");
 
-	struct node *control_variable = expression_to_int(control_expression);
+	struct node *control_variable = expression_to_condition(control_expression);
 
 	TEXPECT(T_RPAR);
 
@@ -301,7 +301,7 @@ static int parse_while_statement(struct jump_blocks *jump_blocks) {
 
 	TEXPECT(T_RPAR);
 
-	struct node *control_variable = expression_to_int(control_expression);
+	struct node *control_variable = expression_to_condition(control_expression);
 
 	struct node *block_true, *block_false;
 	ir_if_selection(control_variable, &block_true, &block_false);
@@ -368,7 +368,7 @@ static int parse_for_statement(struct jump_blocks *jump_blocks) {
 
 	struct expr *condition = parse_expression();
 	if (condition) {
-		struct node *condition_variable = expression_to_int(condition);
+		struct node *condition_variable = expression_to_condition(condition);
 
 		struct node *block_true, *block_false;
 		ir_if_selection(condition_variable, &block_true, &block_false);
-- 
2.43.0


From e490e0f3db82601d55e4c2365192fb29bd28b37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:31 +0000
Subject: [PATCH 006/149] fix: conversions between floating types and 1, 2 and
 8 byte integers, constant folding of floating conditions

---
 src/arch/x64.c                |  4 ++
 src/codegen/codegen.c         | 81 ++++++++++++++++++++++++++++++-----
 src/debug.c                   |  1 +
 src/ir/ir.c                   |  5 ++-
 src/ir/ir.h                   |  3 +-
 src/parser/expression.c       |  4 +-
 src/parser/expression_to_ir.c |  2 +-
 7 files changed, 84 insertions(+), 16 deletions(-)

diff --git a/src/arch/x64.c b/src/arch/x64.c
index 3f8f12d..6054e7a 100644
--- a/src/arch/x64.c
+++ b/src/arch/x64.c
@@ -3,6 +3,7 @@
 
 #include <common.h>
 #include <abi/abi.h>
+#include <parser/expression.h>
 
 #include <assert.h>
 #include <string.h>
@@ -502,6 +503,9 @@ static struct constant simple_cast(struct constant from, enum simple_type target
 	int from_float = type_is_floating(from.data_type);
 	int to_float = type_is_floating(type_simple(target));
 
+	if (target == ST_BOOL)
+		return constant_simple_unsigned(ST_BOOL, !constant_is_zero(&from));
+
 	from.data_type = type_simple(target);
 
 	if (target == ST_VOID || target == from_type)
diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index bd33f81..14391b3 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -361,9 +361,9 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 		int size_rhs = ins->arguments[0]->size,
 			size_result = ins->size;
 		if (size_rhs == 1) {
-			asm_ins2("movsbl", R1(REG_RAX), R4(REG_RAX));
+			asm_ins2("movsbq", R1(REG_RAX), R8(REG_RAX));
 		} else if (size_rhs == 2) {
-			asm_ins2("movswl", R2(REG_RAX), R4(REG_RAX));
+			asm_ins2("movswq", R2(REG_RAX), R8(REG_RAX));
 		} else if (size_rhs == 4) {
 			asm_ins2("movslq", R4(REG_RAX), R8(REG_RAX));
 		}
@@ -390,23 +390,52 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 			asm_ins2("movzwl", R2(REG_RAX), R4(REG_RAX));
 		}
 
-		if (size_result == 4) {
+		if (size_result != 4 && size_result != 8)
+			NOTIMP();
+
+		// The conversion instructions are signed. An operand with the
+		// top bit set is halved, with the lost bit or:ed in to keep
+		// the rounding correct, and the result is doubled.
+		label_id convert_label = register_label(),
+			end_label = register_label();
+		if (size_rhs == 8) {
+			asm_ins2("movq", R8(REG_RAX), R8(REG_RCX));
+			asm_ins2("shrq", IMM(63), R8(REG_RCX));
+			asm_ins2("testq", R8(REG_RCX), R8(REG_RCX));
+			asm_ins1("je", IMML_ABS(convert_label, 0));
+			asm_ins2("movq", R8(REG_RAX), R8(REG_RCX));
+			asm_ins2("andq", IMM(1), R8(REG_RCX));
+			asm_ins2("shrq", IMM(1), R8(REG_RAX));
+			asm_ins2("orq", R8(REG_RCX), R8(REG_RAX));
+			if (size_result == 4) {
+				asm_ins2("cvtsi2ss", R8(REG_RAX), XMM(0));
+				asm_ins2("addss", XMM(0), XMM(0));
+			} else {
+				asm_ins2("cvtsi2sd", R8(REG_RAX), XMM(0));
+				asm_ins2("addsd", XMM(0), XMM(0));
+			}
+			asm_ins1("jmp", IMML_ABS(end_label, 0));
+			asm_label(0, convert_label);
+		}
+
+		if (size_result == 4)
 			asm_ins2("cvtsi2ss", R8(REG_RAX), XMM(0));
-			asm_ins2("movd", XMM(0), R4(REG_RAX));
-		} else if (size_result == 8) {
+		else
 			asm_ins2("cvtsi2sd", R8(REG_RAX), XMM(0));
+
+		if (size_rhs == 8)
+			asm_label(0, end_label);
+
+		if (size_result == 4)
+			asm_ins2("movd", XMM(0), R4(REG_RAX));
+		else
 			asm_ins2("movq", XMM(0), R8(REG_RAX));
-		} else {
-			NOTIMP();
-		}
 		reg_to_scalar(REG_RAX, ins);
 	} break;
 
 	case IR_FLOAT_INT_CAST: {
 		scalar_to_reg(ins->arguments[0], REG_RAX);
 		int size_rhs = ins->arguments[0]->size;
-		// This is not the exact same as gcc and clang in the
-		// case of unsigned long. But within the C standard?
 		if (size_rhs == 4) {
 			asm_ins2("movd", R4(REG_RAX), XMM(0));
 			asm_ins2("cvttss2si", XMM(0), R8(REG_RAX));
@@ -417,6 +446,38 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 		reg_to_scalar(REG_RAX, ins);
 	} break;
 
+	case IR_FLOAT_UINT_CAST: {
+		// The conversion instructions are signed. If the operand is
+		// outside of the signed range, then the first conversion gives
+		// a result with only the top bit set, and the remaining bits are
+		// found by converting (operand - 2^63).
+		scalar_to_reg(ins->arguments[0], REG_RAX);
+		int size_rhs = ins->arguments[0]->size;
+		if (size_rhs == 4) {
+			asm_ins2("movd", R4(REG_RAX), XMM(0));
+			asm_ins2("cvttss2si", XMM(0), R8(REG_RDX));
+			asm_ins2("movl", IMM(0x5f000000), R4(REG_RAX));
+			asm_ins2("movd", R4(REG_RAX), XMM(1));
+			asm_ins2("subss", XMM(1), XMM(0));
+			asm_ins2("cvttss2si", XMM(0), R8(REG_RAX));
+		} else if (size_rhs == 8) {
+			asm_ins2("movd", R8(REG_RAX), XMM(0));
+			asm_ins2("cvttsd2si", XMM(0), R8(REG_RDX));
+			asm_ins2("movabsq", IMM(0x43e0000000000000), R8(REG_RAX));
+			asm_ins2("movd", R8(REG_RAX), XMM(1));
+			asm_ins2("subsd", XMM(1), XMM(0));
+			asm_ins2("cvttsd2si", XMM(0), R8(REG_RAX));
+		} else {
+			NOTIMP();
+		}
+		asm_ins2("movq", R8(REG_RDX), R8(REG_RSI));
+		asm_ins2("movl", IMM(63), R4(REG_RCX));
+		asm_ins2("sarq", R1(REG_RCX), R8(REG_RSI));
+		asm_ins2("andq", R8(REG_RSI), R8(REG_RAX));
+		asm_ins2("orq", R8(REG_RDX), R8(REG_RAX));
+		reg_to_scalar(REG_RAX, ins);
+	} break;
+
 	case IR_VA_START:
 		abi_emit_va_start(ins->arguments[0], func);
 		break;
diff --git a/src/debug.c b/src/debug.c
index 41d2e1a..8efcc1c 100644
--- a/src/debug.c
+++ b/src/debug.c
@@ -121,6 +121,7 @@ const char *dbg_instruction(struct node *ins) {
 	case IR_INT_FLOAT_CAST: str = "int_float_cast %d"; break;
 	case IR_UINT_FLOAT_CAST: str = "uint_float_cast %d"; break;
 	case IR_FLOAT_INT_CAST: str = "float_int_cast %d"; break;
+	case IR_FLOAT_UINT_CAST: str = "float_uint_cast %d"; break;
 	case IR_VA_START: str = "va_start %d"; break;
 	case IR_ADD: str = "%d + %d"; break;
 	case IR_SUB: str = "%d - %d"; break;
diff --git a/src/ir/ir.c b/src/ir/ir.c
index 5901215..10deea6 100644
--- a/src/ir/ir.c
+++ b/src/ir/ir.c
@@ -462,8 +462,9 @@ struct node *ir_cast_int_to_float(struct node *operand, int target_size, int is_
 	return ir_new1(is_signed ? IR_INT_FLOAT_CAST : IR_UINT_FLOAT_CAST, operand, target_size);
 }
 
-struct node *ir_cast_float_to_int(struct node *operand, int target_size) {
-	return ir_new1(IR_FLOAT_INT_CAST, operand, target_size);
+struct node *ir_cast_float_to_int(struct node *operand, int target_size, int is_signed) {
+	// The signed conversion covers every unsigned type smaller than 8 bytes.
+	return ir_new1(is_signed || target_size < 8 ? IR_FLOAT_INT_CAST : IR_FLOAT_UINT_CAST, operand, target_size);
 }
 
 struct node *ir_binary_not(struct node *operand) {
diff --git a/src/ir/ir.h b/src/ir/ir.h
index d975e53..bdfe9bd 100644
--- a/src/ir/ir.h
+++ b/src/ir/ir.h
@@ -60,6 +60,7 @@ struct node {
 		IR_FLOAT_CAST,
 		IR_INT_FLOAT_CAST,
 		IR_FLOAT_INT_CAST,
+		IR_FLOAT_UINT_CAST,
 		IR_UINT_FLOAT_CAST,
 		IR_SET_ZERO_PTR,
 		IR_VA_START,
@@ -255,7 +256,7 @@ struct node *ir_phi(struct node *var_a, struct node *var_b);
 struct node *ir_bool_cast(struct node *operand);
 struct node *ir_cast_int(struct node *operand, int target_size, int sign_extend);
 struct node *ir_cast_float(struct node *operand, int target_size);
-struct node *ir_cast_float_to_int(struct node *operand, int target_size);
+struct node *ir_cast_float_to_int(struct node *operand, int target_size, int is_signed);
 struct node *ir_cast_int_to_float(struct node *operand, int target_size, int is_signed);
 
 struct node *ir_binary_not(struct node *operand);
diff --git a/src/parser/expression.c b/src/parser/expression.c
index 7764126..c6e8637 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -1111,9 +1111,9 @@ int constant_is_zero(struct constant *c) {
 		return 0;
 
 	if (type_is_simple(c->data_type, ST_FLOAT)) {
-		return c->double_d == 0;
-	} else if (type_is_simple(c->data_type, ST_DOUBLE)) {
 		return c->float_d == 0;
+	} else if (type_is_simple(c->data_type, ST_DOUBLE)) {
+		return c->double_d == 0;
 	} else if (type_is_integer(c->data_type) && is_signed(c->data_type->simple)) {
 		return c->int_d == 0;
 	} else if (type_is_integer(c->data_type) && !is_signed(c->data_type->simple)) {
diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index 618cab4..96a61ea 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -155,7 +155,7 @@ static struct node *variable_cast(struct node *operand_var, struct type *operand
 	} else if(type_is_floating(resulting_type) && type_is_integer(operand_type)) {
 		res = ir_cast_int_to_float(operand_var, calculate_size(resulting_type), is_signed(operand_type->simple));
 	} else if(type_is_integer(resulting_type) && type_is_floating(operand_type)) {
-		res = ir_cast_float_to_int(operand_var, calculate_size(resulting_type));
+		res = ir_cast_float_to_int(operand_var, calculate_size(resulting_type), is_signed(resulting_type->simple));
 	}
 
 	return res;
-- 
2.43.0


From cc9ea44df2fc11b17ccd913c3e9316e4237eddac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:31 +0000
Subject: [PATCH 007/149] fix: more than six register arguments overflowed an
 array

---
 src/abi/sysv.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/abi/sysv.c b/src/abi/sysv.c
index 9290a59..99c41ae 100644
--- a/src/abi/sysv.c
+++ b/src/abi/sysv.c
@@ -13,6 +13,9 @@
 static const int calling_convention[] = { REG_RDI, REG_RSI, REG_RDX, REG_RCX, REG_R8, REG_R9 };
 static const int return_convention[] = { REG_RAX, REG_RDX };
 
+// Arguments are passed in 6 general purpose registers, and 8 sse registers.
+#define MAX_ARGUMENT_REGS (6 + 8)
+
 static struct struct_data *builtin_va_list = NULL;
 
 struct sysv_data {
@@ -196,7 +199,7 @@ static struct evaluated_expression sysv_expr_call(struct evaluated_expression *c
 										   int n, struct evaluated_expression arguments[static n]) {
 	struct type *argument_types[128];
 	struct node *arg_addresses[128];
-	struct node *reg_variables[sizeof calling_convention / sizeof *calling_convention];
+	struct node *reg_variables[MAX_ARGUMENT_REGS];
 	struct node *ret_reg_variables[sizeof return_convention / sizeof *return_convention];
 	struct type *callee_type = type_deref(callee->data_type);
 	struct type *return_type = callee_type->children[0];
@@ -291,7 +294,7 @@ static struct evaluated_expression sysv_expr_call(struct evaluated_expression *c
 
 static void sysv_expr_function(struct node *func, struct type *type, struct symbol_identifier **args) {
 	int n_args = type->n - 1;
-	struct node *reg_variables[sizeof calling_convention / sizeof *calling_convention];
+	struct node *reg_variables[MAX_ARGUMENT_REGS];
 
 	struct sysv_data abi_data = { 0 };
 
-- 
2.43.0


From a671663242c48dc5e53701a835676959baa91a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:26 +0000
Subject: [PATCH 008/149] fix: case, default and continue inside of nested
 loops and switches

---
 src/parser/function_parser.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index d96d545..6c9881f 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -119,6 +119,7 @@ int parse_labeled_statement(struct jump_blocks *jump_blocks) {
 		jump_blocks->block_default = block_default;
 
 		parse_statement(jump_blocks);
+		return 1;
 	}
 	return 0;
 }
@@ -145,6 +146,12 @@ int parse_expression_statement(void) {
 	return 1;
 }
 
+// Case and default labels inside of a loop body belong to the enclosing switch.
+static void propagate_labels(struct jump_blocks *jump_blocks, struct jump_blocks *body) {
+	jump_blocks->block_entry = body->block_entry;
+	jump_blocks->block_default = body->block_default;
+}
+
 static int parse_switch(struct jump_blocks *jump_blocks) {
 	if (!TACCEPT(T_KSWITCH))
 		return 0;
@@ -176,6 +183,9 @@ static int parse_switch(struct jump_blocks *jump_blocks) {
 	// Parse body
 	parse_statement(&new_jump_blocks);
 
+	// A continue inside of a switch belongs to the enclosing loop.
+	jump_blocks->block_continue = new_jump_blocks.block_continue;
+
 	if (new_jump_blocks.block_default)
 		ir_connect(new_jump_blocks.block_entry, new_jump_blocks.block_default);
 	else
@@ -246,6 +256,7 @@ static int parse_do_while_statement(struct jump_blocks *jump_blocks) {
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.block_continue = block_control;
 	parse_statement(&new_jump_blocks);
+	propagate_labels(jump_blocks, &new_jump_blocks);
 
 	ir_goto(block_control);
 	ir_block_start(block_control);
@@ -315,6 +326,7 @@ static int parse_while_statement(struct jump_blocks *jump_blocks) {
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.block_continue = block_control;
 	parse_statement(&new_jump_blocks);
+	propagate_labels(jump_blocks, &new_jump_blocks);
 
 	ir_goto(new_jump_blocks.block_continue);
 
@@ -395,6 +407,7 @@ static int parse_for_statement(struct jump_blocks *jump_blocks) {
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.block_continue = block_advance;
 	parse_statement(&new_jump_blocks);
+	propagate_labels(jump_blocks, &new_jump_blocks);
 
 	ir_goto(block_advance);
 	ir_block_start(block_end);
-- 
2.43.0


From 47fbff94135d3d654cb05ce2bcb37697fc8c303b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:46 +0000
Subject: [PATCH 009/149] fix: switch on the promoted type of the controlling
 expression

---
 src/parser/function_parser.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 6c9881f..d4bd2b1 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -20,6 +20,7 @@ struct jump_blocks {
 
 	struct node *block_entry, *block_default;
 	struct node *case_control;
+	struct type *case_type;
 };
 
 static struct function_scope {
@@ -81,14 +82,15 @@ int parse_labeled_statement(struct jump_blocks *jump_blocks) {
 		if (!value)
 			ERROR(T0->pos, "Expected expression");
 		TEXPECT(T_COLON);
-		struct constant *constant = expression_to_constant(expression_cast(value, type_simple(ST_INT)));
-		if (!constant)
-			ERROR(T0->pos, "Expression not constant, is of type %d", value->type);
 
 		struct node *case_control = jump_blocks->case_control;
 		if (!case_control)
 			ERROR(T0->pos, "Not currently in a switch statement");
 
+		struct constant *constant = expression_to_constant(expression_cast(value, jump_blocks->case_type));
+		if (!constant)
+			ERROR(T0->pos, "Expression not constant, is of type %d", value->type);
+
 		struct node *block_case = new_block(),
 			*new_entry = new_block();
 
@@ -162,7 +164,15 @@ static int parse_switch(struct jump_blocks *jump_blocks) {
 	if (!condition)
 		ERROR(T0->pos, "Expected expression");
 
-	struct node *case_control = expression_to_int(condition);
+	// The integer promotions are performed on the controlling expression,
+	// and the case labels are converted to the resulting type.
+	condition = expr_new((struct expr) {
+			.type = E_UNARY_OP,
+			.unary_op = UOP_PLUS,
+			.args = { condition }
+		});
+
+	struct node *case_control = expression_to_ir(condition);
 
 	TEXPECT(T_RPAR);
 
@@ -178,6 +188,7 @@ static int parse_switch(struct jump_blocks *jump_blocks) {
 	new_jump_blocks.block_entry = block_entry;
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.case_control = case_control;
+	new_jump_blocks.case_type = condition->data_type;
 	new_jump_blocks.block_default = NULL;
 
 	// Parse body
-- 
2.43.0


From 50b7bca13d270422c5947f0f22f247d0ca17dc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:53 +0000
Subject: [PATCH 010/149] fix: phi nodes do not depend on operands within their
 own block when scheduling

---
 src/ir/ir.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ir/ir.c b/src/ir/ir.c
index 10deea6..f3c1643 100644
--- a/src/ir/ir.c
+++ b/src/ir/ir.c
@@ -750,7 +750,9 @@ void ir_local_schedule_recursive(struct node *node, struct node **end, struct no
 
 	node->visited = 5;
 
-	for (unsigned i = 0; i < IR_MAX; i++) {
+	// The operands of a phi node are evaluated in the preceding
+	// blocks. For loops these might come after the phi node in this block.
+	for (unsigned i = 0; i < IR_MAX && node->type != IR_PHI; i++) {
 		struct node *arg = node->arguments[i];
 
 		if (arg && arg->block == node->block)
-- 
2.43.0


From 21e75f45bd236f3b5f45bfff70a6ee10902fd136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:13 +0000
Subject: [PATCH 011/149] fix: phi nodes of a block are assigned in parallel

---
 src/codegen/codegen.c | 59 +++++++++++++++++++++++++++++++++----------
 1 file changed, 45 insertions(+), 14 deletions(-)

diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index 14391b3..c8c62fd 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -564,30 +564,48 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 	}
 }
 
+static int get_phi_argument_index(struct node *current_block, struct node *next_block) {
+	if (current_block == next_block->arguments[0])
+		return 1;
+	else if (current_block == next_block->arguments[1])
+		return 2;
+
+	ICE("Phi node in %d reachable from invalid block %d (not %d or %d)",
+		next_block,
+		current_block,
+		next_block->arguments[0], next_block->arguments[1]);
+}
+
+static int phi_has_copy(struct node *ins, int argument_index) {
+	return ins->type == IR_PHI && ins->size != 0 && ins->arguments[argument_index];
+}
+
 static void codegen_phi_node(struct node *current_block, struct node *next_block) {
 	if (next_block->type != IR_REGION)
 		return;
 
+	int index = get_phi_argument_index(current_block, next_block);
+
+	// All of the phi nodes of a block are assigned at the same time,
+	// if the operand of one phi node is another phi node of the same block,
+	// all the operands must be read before any of the phi nodes are written.
+	int is_parallel = 0;
 	for (unsigned i = 0; i < next_block->use_size; i++) {
 		struct node *ins = next_block->uses[i];
 
-		if (ins->type != IR_PHI || ins->size == 0)
+		if (!phi_has_copy(ins, index))
 			continue;
 
-		struct node *source_var;
+		struct node *source_var = ins->arguments[index];
+		if (source_var != ins && source_var->type == IR_PHI &&
+			source_var->arguments[0] == next_block)
+			is_parallel = 1;
+	}
 
-		if (current_block == next_block->arguments[0]) {
-			source_var = ins->arguments[1];
-		} else if (current_block == next_block->arguments[1]) {
-			source_var = ins->arguments[2];
-		} else {
-			ICE("Phi node in %d reachable from invalid block %d (not %d or %d)",
-				next_block,
-				current_block,
-				next_block->arguments[0], next_block->arguments[1]);
-		}
+	for (unsigned i = 0; i < next_block->use_size; i++) {
+		struct node *ins = next_block->uses[i];
 
-		if (!source_var)
+		if (!phi_has_copy(ins, index))
 			continue;
 
 		asm_comment("Phi node to %d (%d %d %d)", ins->index,
@@ -595,7 +613,20 @@ static void codegen_phi_node(struct node *current_block, struct node *next_block
 					ins->arguments[1] ? ins->arguments[1]->index : -1,
 					ins->arguments[2] ? ins->arguments[2]->index : -1
 			);
-		scalar_to_reg(source_var, REG_RAX);
+		scalar_to_reg(ins->arguments[index], REG_RAX);
+		if (is_parallel)
+			asm_ins1("pushq", R8(REG_RAX));
+		else
+			reg_to_scalar(REG_RAX, ins);
+	}
+
+	for (unsigned i = next_block->use_size; is_parallel && i-- > 0;) {
+		struct node *ins = next_block->uses[i];
+
+		if (!phi_has_copy(ins, index))
+			continue;
+
+		asm_ins1("popq", R8(REG_RAX));
 		reg_to_scalar(REG_RAX, ins);
 	}
 }
-- 
2.43.0


From 0b51ced14301ad5f3691a1122745b5a13f1216c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:01 +0000
Subject: [PATCH 012/149] fix: #pragma pack(pop) restores the previous packing

---
 src/parser/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index b746f2b..a47283f 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -45,7 +45,7 @@ int parse_handle_pragma(void) {
 		if (T0->type == T_IDENT) {
 			if (sv_string_cmp(T0->str, "pop")) {
 				if (pack_size)
-					pack_size--;
+					current_packing = packs[--pack_size];
 				TNEXT();
 				TEXPECT(T_RPAR);
 				return 1;
-- 
2.43.0


From fc465af08d7a0cfd7940ddd3d934abe08cdfccc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:08 +0000
Subject: [PATCH 013/149] fix: assignment to a bit-field has the value of the
 bit-field

---
 src/parser/expression_to_ir.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index 96a61ea..ff8146e 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -489,6 +489,17 @@ static struct evaluated_expression evaluate_unary_operator(struct expr *expr) {
 	};
 }
 
+// The value a bit-field has after var is stored to it.
+static struct evaluated_expression bitfield_value(struct evaluated_expression *bitfield,
+												  struct node *var) {
+	return (struct evaluated_expression) {
+		.type = EE_VARIABLE,
+		.data_type = bitfield->data_type,
+		.variable = ir_get_bits(var, 0, bitfield->bitfield_pointer.bitfield,
+								bitfield->bitfield_pointer.sign_extend)
+	};
+}
+
 static struct evaluated_expression evaluate_assignment(struct expr *expr) {
 	struct evaluated_expression lhs = expression_evaluate(expr->args[0]);
 	struct evaluated_expression rhs = expression_evaluate(expr->args[1]);
@@ -499,6 +510,9 @@ static struct evaluated_expression evaluate_assignment(struct expr *expr) {
 
 	assign_ee_to_ee(&lhs, &rhs);
 
+	if (lhs.type == EE_BITFIELD_POINTER)
+		rhs = bitfield_value(&lhs, evaluated_expression_to_var(&rhs));
+
 	return rhs;
 }
 
@@ -529,8 +543,12 @@ static struct evaluated_expression evaluate_assignment_op(struct expr *expr) {
 	lhs_var = ir_binary_op(ir_operator, lhs_var, rhs_var);
 	lhs_var = variable_cast(lhs_var, operator_type, lhs.data_type);
 
-	if (!expr->assignment_op.postfix)
+	if (!expr->assignment_op.postfix) {
 		res_var = lhs_var;
+		if (lhs.type == EE_BITFIELD_POINTER)
+			res_var = ir_get_bits(lhs_var, 0, lhs.bitfield_pointer.bitfield,
+								  lhs.bitfield_pointer.sign_extend);
+	}
 
 	struct evaluated_expression res = {
 		.type = EE_VARIABLE,
-- 
2.43.0


From 54d3ef45f1caf8f378b7a95396c03c46eb5ef4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:08 +0000
Subject: [PATCH 014/149] fix: lay out bit-fields and members declared with
 _Alignas as the ABI specifies

---
 src/abi/sysv.c           |   2 +-
 src/arch/x64.c           | 141 +++++++++++++++++++++------------------
 src/parser/declaration.c |   6 +-
 src/types.h              |   1 +
 4 files changed, 83 insertions(+), 67 deletions(-)

diff --git a/src/abi/sysv.c b/src/abi/sysv.c
index 99c41ae..bfbfd40 100644
--- a/src/abi/sysv.c
+++ b/src/abi/sysv.c
@@ -552,7 +552,7 @@ void abi_init_sysv(void) {
 
 	struct field *fields = cc_malloc(sizeof *fields * 4);
 	for (int i = 0; i < 4; i++)
-		fields[i].bitfield = -1;
+		fields[i] = (struct field) { .bitfield = -1 };
 	fields[0].type = uint;
 	fields[0].name = sv_from_str("gp_offset");
 	fields[1].type = uint;
diff --git a/src/arch/x64.c b/src/arch/x64.c
index 6054e7a..c66cd74 100644
--- a/src/arch/x64.c
+++ b/src/arch/x64.c
@@ -216,85 +216,98 @@ static int calculate_alignment_with_max(struct type *type, int packing) {
 	return alignment;
 }
 
+static long long round_up(long long num, int div) {
+	return (num + div - 1) / div * div;
+}
+
+// Position is the first bit that is available, and the result is the first bit used by the field.
+static long long place_bitfield(struct struct_data *data, struct field *field, long long position) {
+	int unit_size = calculate_size(field->type);
+	int unit_bits = 8 * unit_size;
+
+	if (data->packing == 0 || data->packing >= calculate_alignment(field->type)) {
+		// A bit-field can't cross the boundary of its declared type.
+		long long last = position + field->bitfield - 1;
+		if (position / unit_bits != last / unit_bits)
+			position = round_up(position, unit_bits);
+
+		field->offset = position / unit_bits * unit_size;
+	} else {
+		if (position % 8 + field->bitfield > unit_bits)
+			position = round_up(position, 8);
+
+		field->offset = position / 8;
+	}
+
+	field->bit_offset = position - 8 * field->offset;
+	return position;
+}
+
 void calculate_offsets(struct struct_data *data) {
-	int current_offset = 0;
-	int max_offset = 0;
+	long long position = 0; // First bit after the previous field.
+	int max_size = 0;
 	int alignment = 1;
 
-	int last_bit_offset = 0;
 	for (int i = 0; i < data->n; i++) {
-		struct type *field = data->fields[i].type;
-		current_offset = round_up_to_nearest(current_offset, calculate_alignment_with_max(field, data->packing));
+		struct field *field = data->fields + i;
+		int field_alignment = calculate_alignment_with_max(field->type, data->packing);
+		if (field->alignment > field_alignment)
+			field_alignment = field->alignment;
 
-		if (data->fields[i].bitfield == 0)
-			continue;
+		if (data->is_union)
+			position = 0;
 
-		data->fields[i].offset = current_offset;
-		data->fields[i].bit_offset = 0;
-
-		if (data->fields[i].bitfield != -1) {
-			if (last_bit_offset != 0 && data->fields[i - 1].bitfield != 0)
-				data->fields[i].offset = data->fields[i - 1].offset;
-
-			int fits = 0;
-			struct type *fit_type = NULL;
-			for (int j = i; j >= 0; j--) {
-				if (last_bit_offset != 0 && data->fields[j].offset == data->fields[i - 1].offset &&
-					last_bit_offset + data->fields[i].bitfield <= 8 * calculate_size(data->fields[j].type)) {
-					fits = 1;
-					fit_type = data->fields[j].type;
-					break;
-				}
-			}
+		if (field->bitfield == 0) {
+			position = round_up(position, 8 * calculate_alignment(field->type));
+			continue;
+		}
 
-			if (fits) {
-				current_offset = data->fields[i].offset;
-				data->fields[i].bit_offset = last_bit_offset;
-				data->fields[i].type = fit_type;
-			} else {
-				if (!data->is_union) {
-					current_offset = max_offset;
-
-					current_offset = round_up_to_nearest(current_offset, calculate_alignment_with_max(field, data->packing));
-				}
-				data->fields[i].offset = current_offset;
-				last_bit_offset = 0;
-			}
+		if (field->bitfield != -1) {
+			if (field->alignment)
+				position = round_up(position, 8 * field->alignment);
+			position = place_bitfield(data, field, position) + field->bitfield;
 
-			if (!data->is_union)
-				last_bit_offset += data->fields[i].bitfield;
+			// Unnamed bit-fields do not affect the alignment.
+			if (field->name.len == 0)
+				field_alignment = 1;
 		} else {
-			last_bit_offset = 0;
+			position = round_up(position, 8 * field_alignment);
+			field->offset = position / 8;
+			field->bit_offset = 0;
+
+			if (!(i == data->n - 1 &&
+				  field->type->type == TY_INCOMPLETE_ARRAY)) {
+				int size = calculate_size(field->type);
+				if (size == -1)
+					ICE("%s has invalid size", dbg_type(field->type));
+				position += 8 * size;
+			}
 		}
 
-		int new_size = 0;
-		if (i == data->n - 1 &&
-			field->type == TY_INCOMPLETE_ARRAY) {
-			new_size = 0;
-		} else {
-			new_size = calculate_size(field);
-			if (new_size == -1)
-				ICE("%s has invalid size", dbg_type(field));
-		}
+		if (field_alignment > alignment)
+			alignment = field_alignment;
 
-		int new_alignment = calculate_alignment_with_max(field, data->packing);
-		if (new_alignment > alignment)
-			alignment = new_alignment;
-		if (!data->is_union) {
-			current_offset += new_size;
-			if (current_offset > max_offset)
-				max_offset = current_offset;
-		} else {
-			if (new_size > max_offset)
-				max_offset = new_size;
-		}
+		int size = (position + 7) / 8;
+		if (size > max_size)
+			max_size = size;
 	}
 
-	if (data->packing > 0 && alignment > data->packing)
-		alignment = data->packing;
-
-	data->size = round_up_to_nearest(max_offset, alignment);
+	data->size = round_up_to_nearest(max_size, alignment);
 	data->alignment = alignment;
+
+	// Don't access bytes after a packed structure, if it can be avoided.
+	for (int i = 0; i < data->n && data->packing; i++) {
+		struct field *field = data->fields + i;
+		if (field->bitfield <= 0)
+			continue;
+
+		int unit_size = calculate_size(field->type);
+		while (field->offset > 0 && field->offset + unit_size > data->size &&
+			   field->bit_offset + 8 + field->bitfield <= 8 * unit_size) {
+			field->offset--;
+			field->bit_offset += 8;
+		}
+	}
 }
 
 struct constant constant_increment(struct constant a) {
diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index d748320..58598a7 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -405,7 +405,8 @@ int parse_struct(struct type_specifiers *ts) {
 				ADD_ELEMENT(fields_size, fields_cap, fields) = (struct field) {
 					.type = type,
 					.name = name,
-					.bitfield = bitfield
+					.bitfield = bitfield,
+					.alignment = s.as.alignment
 				};
 
 				TACCEPT(T_COMMA);
@@ -418,7 +419,8 @@ int parse_struct(struct type_specifiers *ts) {
 					ADD_ELEMENT(fields_size, fields_cap, fields) = (struct field) {
 						.type = s.ts.data_type,
 						.name = { 0 },
-						.bitfield = -1
+						.bitfield = -1,
+						.alignment = s.as.alignment
 					};
 				} else {
 					ERROR(T0->pos, "Anonymous member must be struct or bitfield.");
diff --git a/src/types.h b/src/types.h
index 0b65518..4ed0870 100644
--- a/src/types.h
+++ b/src/types.h
@@ -107,6 +107,7 @@ struct struct_data {
 		struct string_view name;
 		struct type *type;
 		int bitfield; // -1 means no bit-field.
+		int alignment; // From _Alignas, 0 if not specified.
 		int offset;
 		int bit_offset;
 	} *fields;
-- 
2.43.0


From 8431477f34fb51689fde8bc7ca362700e5021d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:12 +0000
Subject: [PATCH 015/149] fix: classify aggregates per SysV eightbyte (members
 outside the eightbyte, bit-fields, size > 16, unaligned members)

---
 src/arch/calling.c | 53 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 42 insertions(+), 11 deletions(-)

diff --git a/src/arch/calling.c b/src/arch/calling.c
index 41742ae..f4c31fd 100644
--- a/src/arch/calling.c
+++ b/src/arch/calling.c
@@ -55,7 +55,16 @@ static void classify_recursively(enum parameter_class *current,
 			struct type *memb_type = data->fields[i].type;
 			int size = calculate_size(memb_type);
 			int offset = data->fields[i].offset;
-			if (offset + size < lower || offset >= upper)
+
+			// Only the bits of a bit-field are considered.
+			if (data->fields[i].bitfield != -1) {
+				int start = data->fields[i].bit_offset;
+				int end = start + data->fields[i].bitfield;
+				size = (end + 7) / 8 - start / 8;
+				offset += start / 8;
+			}
+
+			if (offset + size <= lower || offset >= upper)
 				continue;
 
 			enum parameter_class memb_class;
@@ -73,7 +82,7 @@ static void classify_recursively(enum parameter_class *current,
 			int size = calculate_size(memb_type);
 			int offset = size * i;
 
-			if (offset + size < lower || offset >= upper)
+			if (offset + size <= lower || offset >= upper)
 				continue;
 
 			enum parameter_class memb_class;
@@ -95,15 +104,44 @@ static void classify_recursively(enum parameter_class *current,
 	}
 }
 
+static int has_unaligned_fields(struct type *type, int offset) {
+	switch (type->type) {
+	case TY_STRUCT: {
+		struct struct_data *data = type->struct_data;
+		for (int i = 0; i < data->n; i++) {
+			if (data->fields[i].bitfield == -1 &&
+				has_unaligned_fields(data->fields[i].type, offset + data->fields[i].offset))
+				return 1;
+		}
+		return 0;
+	}
+
+	case TY_ARRAY:
+		for (size_t i = 0; i < type->array.length; i++) {
+			if (has_unaligned_fields(type->children[0], offset + i * calculate_size(type->children[0])))
+				return 1;
+		}
+		return 0;
+
+	case TY_INCOMPLETE_ARRAY:
+		return 0;
+
+	default:
+		return offset % calculate_alignment(type) != 0;
+	}
+}
+
 void classify(struct type *type, int *n_parts, enum parameter_class *classes) {
 	if (classify_non_recursive(type, classes)) {
 		*n_parts = 1;
 	} else if (type->type == TY_STRUCT) {
 		int size = calculate_size(type);
 
-		// post cleanup:
+		classes[0] = CLASS_NO_CLASS;
 
-		if (size > 4 * 8) {
+		// Aggregates larger than two eightbytes are only passed in registers
+		// if they consist of a single vector, which is not supported.
+		if (size > 2 * 8 || has_unaligned_fields(type, 0)) {
 			*n_parts = 1;
 			classes[0] = CLASS_MEMORY;
 		} else {
@@ -122,13 +160,6 @@ void classify(struct type *type, int *n_parts, enum parameter_class *classes) {
 					should_be_mem = 1;
 			}
 
-			if (*n_parts > 2) {
-				if (classes[0] != CLASS_SSE)
-					should_be_mem = 1;
-				// TODO: Is more to this, but I couldn't really follow the logic
-				// in the ABI. 3.2.3 Post merger cleanum part (c).
-			}
-
 			if (should_be_mem) {
 				*n_parts = 1;
 				classes[0] = CLASS_MEMORY;
-- 
2.43.0


From 081d6b05638e70a15ac2d9c3ce00cd59925727f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:57 +0000
Subject: [PATCH 016/149] fix: return aggregates per SysV eightbyte class and
 return the hidden address in rax

---
 src/abi/sysv.c | 85 ++++++++++++++++++++++++++++----------------------
 1 file changed, 48 insertions(+), 37 deletions(-)

diff --git a/src/abi/sysv.c b/src/abi/sysv.c
index bfbfd40..76c2e1a 100644
--- a/src/abi/sysv.c
+++ b/src/abi/sysv.c
@@ -51,7 +51,7 @@ struct call_info {
 	int returns_address;
 	int ret_address_index;
 
-	int gp_offset;
+	int gp_offset, fp_offset;
 
 	int rax;
 
@@ -97,19 +97,26 @@ static struct call_info get_calling_convention(struct type *function_type, int n
 			};
 		} else {
 			int gp_idx = 0, ssa_idx = 0;
+			int return_size = calculate_size(return_type);
 			for (int j = 0; j < n_parts; j++) {
+				int part_size = MIN(return_size - j * 8, 8);
+
 				if (classes[j] == CLASS_SSE || classes[j] == CLASS_SSEUP) {
 					ADD_ELEMENT(ret_regs_size, ret_regs_cap, ret_regs) = (struct reg_info) {
 						.is_sse = 1,
 						.register_idx = ssa_idx++,
-						.size = 8,
+						.merge_pos = j * 8,
+						.size = part_size,
 					};
-				} else {
+				} else if (classes[j] == CLASS_INTEGER) {
 					ADD_ELEMENT(ret_regs_size, ret_regs_cap, ret_regs) = (struct reg_info) {
 						.is_sse = 0,
 						.register_idx = return_convention[gp_idx++],
-						.size = 8,
+						.merge_pos = j * 8,
+						.size = part_size,
 					};
+				} else if (classes[j] != CLASS_NO_CLASS) {
+					NOTIMP();
 				}
 			}
 		}
@@ -131,7 +138,7 @@ static struct call_info get_calling_convention(struct type *function_type, int n
 				n_sse_regs++;
 			else if (classes[j] == CLASS_INTEGER)
 				n_gp_regs++;
-			else
+			else if (classes[j] != CLASS_NO_CLASS)
 				NOTIMP();
 		}
 
@@ -153,7 +160,7 @@ static struct call_info get_calling_convention(struct type *function_type, int n
 						.merge_pos = j * 8,
 						.size = part_size,
 					};
-				} else {
+				} else if (classes[j] == CLASS_INTEGER) {
 					ADD_ELEMENT(regs_size, regs_cap, regs) = (struct reg_info) {
 						.is_sse = 0,
 						.register_idx = calling_convention[current_gp_reg++],
@@ -190,11 +197,6 @@ static struct call_info get_calling_convention(struct type *function_type, int n
 	};
 }
 
-static void split_variable(struct node *variable_address, int n_parts, struct node *parts[n_parts]) {
-	for (int i = 0; i < n_parts; i++)
-		parts[i] = ir_load_part_address(variable_address, i * 8, 8);
-}
-
 static struct evaluated_expression sysv_expr_call(struct evaluated_expression *callee,
 										   int n, struct evaluated_expression arguments[static n]) {
 	struct type *argument_types[128];
@@ -267,25 +269,24 @@ static struct evaluated_expression sysv_expr_call(struct evaluated_expression *c
 			.data_type = return_type,
 			.pointer = ret_address,
 		};
-	} else if (c.ret_regs_size == 1) {
-		struct node *variable = ir_cast_int(ret_reg_variables[0], calculate_size(return_type), 0);
+	} else if (type_is_simple(return_type, ST_VOID)) {
+		result = (struct evaluated_expression) {
+			.type = EE_VOID,
+		};
+	} else if (return_type->type != TY_STRUCT) {
 		result = (struct evaluated_expression) {
 			.type = EE_VARIABLE,
 			.data_type = return_type,
-			.variable = variable,
+			.variable = ret_reg_variables[0],
 		};
-	} else if (c.ret_regs_size == 2) {
+	} else {
 		struct node *address = ir_allocate(calculate_size(return_type), 0);
-		ir_store_part_address(address, ret_reg_variables[0], 0);
-		ir_store_part_address(address, ret_reg_variables[1], 8);
+		for (int i = 0; i < c.ret_regs_size; i++)
+			ir_store_part_address(address, ret_reg_variables[i], c.ret_regs[i].merge_pos);
 		result = (struct evaluated_expression) {
 			.type = EE_POINTER,
 			.data_type = return_type,
-			.variable = address,
-		};
-	} else {
-		result = (struct evaluated_expression) {
-			.type = EE_VOID,
+			.pointer = address,
 		};
 	}
 
@@ -371,30 +372,40 @@ static void sysv_expr_return(struct node *func, struct evaluated_expression *val
 	struct sysv_data *abi_data = func->function.abi_data;
 	int n_parts = 0;
 
+	*reg_state = NULL;
+
 	if (value->type == EE_VOID)
 		goto unclobber;
 
 	classify(value->data_type, &n_parts, classes);
 
-	*reg_state = NULL;
-	if (n_parts == 1 && classes[0] == CLASS_MEMORY) {
+	if (classes[0] == CLASS_MEMORY) {
 		struct node *value_address = evaluated_expression_to_address(value);
 		ir_copy_memory(abi_data->ret_address, value_address, calculate_size(value->data_type));
-	} else if (n_parts == 1 && classes[0] == CLASS_INTEGER) {
-		struct node *value_var = evaluated_expression_to_var(value);
-		*reg_state = ir_set_reg(value_var, *reg_state, return_convention[0], 0);
-	} else if (n_parts == 2 && classes[0] == CLASS_INTEGER) {
-		struct node *value_address = evaluated_expression_to_address(value);
-		struct node *parts[2];
-		split_variable(value_address, 2, parts);
-		
-		*reg_state = ir_set_reg(parts[0], *reg_state, return_convention[0], 0);
-		*reg_state = ir_set_reg(parts[1], *reg_state, return_convention[1], 0);
-	} else if (n_parts == 1 && classes[0] == CLASS_SSE) {
+
+		// The caller expects the address in %rax.
+		*reg_state = ir_set_reg(abi_data->ret_address, *reg_state, return_convention[0], 0);
+	} else if (value->data_type->type != TY_STRUCT) {
 		struct node *value_var = evaluated_expression_to_var(value);
-		*reg_state = ir_set_reg(value_var, *reg_state, 0, 1);
+		if (classes[0] == CLASS_SSE)
+			*reg_state = ir_set_reg(value_var, *reg_state, 0, 1);
+		else
+			*reg_state = ir_set_reg(value_var, *reg_state, return_convention[0], 0);
 	} else {
-		NOTIMP();
+		struct node *value_address = evaluated_expression_to_address(value);
+		int gp_idx = 0, sse_idx = 0;
+		int size = calculate_size(value->data_type);
+
+		for (int i = 0; i < n_parts; i++) {
+			if (classes[i] == CLASS_NO_CLASS)
+				continue;
+
+			struct node *part = ir_load_part_address(value_address, i * 8, MIN(size - i * 8, 8));
+			if (classes[i] == CLASS_SSE || classes[i] == CLASS_SSEUP)
+				*reg_state = ir_set_reg(part, *reg_state, sse_idx++, 1);
+			else
+				*reg_state = ir_set_reg(part, *reg_state, return_convention[gp_idx++], 0);
+		}
 	}
 
 unclobber:
-- 
2.43.0


From 834d46c0f28472467ff8616b1e0d4296b3547743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:18 +0000
Subject: [PATCH 017/149] fix: pass and fetch floating and aggregate variadic
 arguments as the SysV ABI specifies

---
 src/abi/sysv.c | 82 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 57 insertions(+), 25 deletions(-)

diff --git a/src/abi/sysv.c b/src/abi/sysv.c
index 76c2e1a..d9fd5f7 100644
--- a/src/abi/sysv.c
+++ b/src/abi/sysv.c
@@ -16,6 +16,10 @@ static const int return_convention[] = { REG_RAX, REG_RDX };
 // Arguments are passed in 6 general purpose registers, and 8 sse registers.
 #define MAX_ARGUMENT_REGS (6 + 8)
 
+// Layout of the register save area, Figure 3.33 in sysV AMD64 ABI.
+#define SSE_SAVE_AREA_OFFSET (6 * 8)
+#define SAVE_AREA_SIZE (SSE_SAVE_AREA_OFFSET + 8 * 16)
+
 static struct struct_data *builtin_va_list = NULL;
 
 struct sysv_data {
@@ -76,7 +80,7 @@ static struct call_info get_calling_convention(struct type *function_type, int n
 	int returns_address = 0;
 	int ret_address_index = 0;
 
-	int gp_offset = 0;
+	int gp_offset = 0, fp_offset = 0;
 	int shadow_space = 0;
 
 	int current_gp_reg = 0, current_sse_reg = 0;
@@ -175,6 +179,7 @@ static struct call_info get_calling_convention(struct type *function_type, int n
 	}
 
 	gp_offset = current_gp_reg * 8;
+	fp_offset = SSE_SAVE_AREA_OFFSET + current_sse_reg * 16;
 
 	return (struct call_info) {
 		.regs_size = regs_size,
@@ -190,6 +195,7 @@ static struct call_info get_calling_convention(struct type *function_type, int n
 		.ret_address_index = ret_address_index,
 
 		.gp_offset = gp_offset,
+		.fp_offset = fp_offset,
 
 		.rax = current_sse_reg,
 
@@ -358,9 +364,9 @@ static void sysv_expr_function(struct node *func, struct type *type, struct symb
 
 	if (type->function.is_variadic) {
 		abi_data.is_variadic = 1;
-        // Sized according to Figure 3.33 in sysV AMD64 ABI:
-		ir_allocate_preamble(304);
+		ir_allocate_preamble(SAVE_AREA_SIZE);
 		abi_data.gp_offset = c.gp_offset;
+		abi_data.fp_offset = c.fp_offset;
 		abi_data.overflow_position = total_mem_needed + 16;
 	}
 
@@ -425,6 +431,8 @@ static void sysv_emit_function_preamble(struct node *func) {
 	asm_ins2("movq", R8(REG_RCX), MEM(24 - position, REG_RBP));
 	asm_ins2("movq", R8(REG_R8), MEM(32 - position, REG_RBP));
 	asm_ins2("movq", R8(REG_R9), MEM(40 - position, REG_RBP));
+	for (int i = 0; i < 8; i++)
+		asm_ins2("movsd", XMM(i), MEM(SSE_SAVE_AREA_OFFSET + i * 16 - position, REG_RBP));
 }
 
 static void sysv_emit_va_start(struct node *result, struct node *func) {
@@ -435,7 +443,7 @@ static void sysv_emit_va_start(struct node *result, struct node *func) {
 	int reg_save_area_offset = builtin_va_list->fields[3].offset;
 	scalar_to_reg(result, REG_RAX);
 	asm_ins2("movl", IMM(abi_data->gp_offset), MEM(gp_offset_offset, REG_RAX));
-	asm_ins2("movl", IMM(0), MEM(fp_offset_offset, REG_RAX));
+	asm_ins2("movl", IMM(abi_data->fp_offset), MEM(fp_offset_offset, REG_RAX));
 	asm_ins2("leaq", MEM(abi_data->overflow_position, REG_RBP), R8(REG_RDI));
 	asm_ins2("movq", R8(REG_RDI), MEM(overflow_arg_area_offset, REG_RAX));
 
@@ -449,35 +457,48 @@ static void sysv_emit_va_arg(struct node *address, struct node *va_list, struct
 	enum parameter_class classes[4];
 	classify(type, &n_parts, classes);
 
+	int size = calculate_size(type);
 	int gp_offset_offset = builtin_va_list->fields[0].offset;
+	int fp_offset_offset = builtin_va_list->fields[1].offset;
 	int reg_save_area_offset = builtin_va_list->fields[3].offset;
 	int overflow_arg_area_offset = builtin_va_list->fields[2].offset;
-	// 1. Determine whether type may be passed in the registers. If not go to step 7
-	scalar_to_reg(va_list, REG_RDI);
 
 	label_id stack_label = register_label(),
-		fetch_label = register_label();
+		end_label = register_label();
+
+	// 1. Determine whether type may be passed in the registers. If not go to step 7
 	if (classes[0] != CLASS_MEMORY) {
 		// 2. Compute num_gp to hold the number of general purpose registers needed
 		// to pass type and num_fp to hold the number of floating point registers needed.
 
-		int num_gp = 0;
+		int num_gp = 0, num_fp = 0;
 		for (int i = 0; i < n_parts; i++) {
 			if (classes[i] == CLASS_INTEGER)
 				num_gp++;
-			else
+			else if (classes[i] == CLASS_SSE || classes[i] == CLASS_SSEUP)
+				num_fp++;
+			else if (classes[i] != CLASS_NO_CLASS)
 				NOTIMP();
 		}
 
 		// 3. Verify whether arguments fit into registers. In the case:
 		//     l->gp_offset > 48 − num_gp ∗ 8
 		// or
-		//     l->fp_offset > 304 − num_fp ∗ 16
+		//     l->fp_offset > 176 − num_fp ∗ 16
 		// go to step 7.
 
-		asm_ins2("movl", MEM(gp_offset_offset, REG_RDI), R4(REG_RAX));
-		asm_ins2("cmpl", IMM(48 - 8 * num_gp), R4(REG_RAX));
-		asm_ins1("ja", IMML_ABS(stack_label, 0));
+		scalar_to_reg(va_list, REG_RDX);
+		if (num_gp) {
+			asm_ins2("movl", MEM(gp_offset_offset, REG_RDX), R4(REG_RAX));
+			asm_ins2("cmpl", IMM(SSE_SAVE_AREA_OFFSET - 8 * num_gp), R4(REG_RAX));
+			asm_ins1("ja", IMML_ABS(stack_label, 0));
+		}
+
+		if (num_fp) {
+			asm_ins2("movl", MEM(fp_offset_offset, REG_RDX), R4(REG_RAX));
+			asm_ins2("cmpl", IMM(SAVE_AREA_SIZE - 16 * num_fp), R4(REG_RAX));
+			asm_ins1("ja", IMML_ABS(stack_label, 0));
+		}
 
 		// 4. Fetch type from l->reg_save_area with an offset of l->gp_offset
 		// and/or l->fp_offset. This may require copying to a temporary loca-
@@ -490,33 +511,44 @@ static void sysv_emit_va_arg(struct node *address, struct node *va_list, struct
 		// l->fp_offset = l->fp_offset + num_fp ∗ 16.
 		// 6. Return the fetched type.
 
-		asm_ins2("leal", MEM(num_gp * 8, REG_RAX), R4(REG_RDX));
-		asm_ins2("addq", MEM(reg_save_area_offset, REG_RDI), R8(REG_RAX));
-		asm_ins2("movl", R4(REG_RDX), MEM(gp_offset_offset, REG_RDI));
-		asm_ins1("jmp", IMML_ABS(fetch_label, 0));
+		scalar_to_reg(address, REG_RSI);
+		for (int i = 0; i < n_parts; i++) {
+			if (classes[i] == CLASS_NO_CLASS)
+				continue;
+
+			int is_gp = classes[i] == CLASS_INTEGER;
+			int offset_offset = is_gp ? gp_offset_offset : fp_offset_offset;
+
+			asm_ins2("movl", MEM(offset_offset, REG_RDX), R4(REG_RDI));
+			asm_ins2("leal", MEM(is_gp ? 8 : 16, REG_RDI), R4(REG_RAX));
+			asm_ins2("movl", R4(REG_RAX), MEM(offset_offset, REG_RDX));
+			asm_ins2("addq", MEM(reg_save_area_offset, REG_RDX), R8(REG_RDI));
+			codegen_memcpy(MIN(size - i * 8, 8));
+			asm_ins2("leaq", MEM(8, REG_RSI), R8(REG_RSI));
+		}
+		asm_ins1("jmp", IMML_ABS(end_label, 0));
 	}
+
 	// 7. Align l->overflow_arg_area upwards to a 16 byte boundary if align-
 	//ment needed by type exceeds 8 byte boundary. [This is ignored.]
 	asm_label(0, stack_label);
 
 	// 8. Fetch type from l->overflow_arg_area.
 
-	asm_ins2("movq", MEM(overflow_arg_area_offset, REG_RDI), R8(REG_RAX));
+	scalar_to_reg(va_list, REG_RDX);
+	asm_ins2("movq", MEM(overflow_arg_area_offset, REG_RDX), R8(REG_RDI));
 
 	// 9. Set l->overflow_arg_area to:
 	// l->overflow_arg_area + sizeof(type)
 	// 10. Align l->overflow_arg_area upwards to an 8 byte boundary.
-	asm_ins2("leaq", MEM(round_up_to_nearest(calculate_size(type), 8), REG_RAX), R8(REG_RDX));
-	asm_ins2("movq", R8(REG_RDX), MEM(overflow_arg_area_offset, REG_RDI));
+	asm_ins2("leaq", MEM(round_up_to_nearest(size, 8), REG_RDI), R8(REG_RAX));
+	asm_ins2("movq", R8(REG_RAX), MEM(overflow_arg_area_offset, REG_RDX));
 
 	// 11. Return the fetched type.
-	asm_label(0, fetch_label);
-
-	// Address is now in %%rax.
-	asm_ins2("movq", R8(REG_RAX), R8(REG_RDI));
 	scalar_to_reg(address, REG_RSI);
+	codegen_memcpy(size);
 
-	codegen_memcpy(calculate_size(type));
+	asm_label(0, end_label);
 }
 
 static int sysv_sizeof_simple(enum simple_type type) {
-- 
2.43.0


From b038e5a28fb15358345bcba5e2b60aa4d6734ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:35 +0000
Subject: [PATCH 018/149] fix: address the caller's frame correctly in
 functions with a realigned stack

---
 src/abi/microsoft.c   | 11 ++++++-----
 src/abi/sysv.c        |  2 +-
 src/codegen/codegen.c | 15 +++++++++++++--
 src/codegen/codegen.h |  1 +
 4 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/abi/microsoft.c b/src/abi/microsoft.c
index dc658c5..d885fd7 100644
--- a/src/abi/microsoft.c
+++ b/src/abi/microsoft.c
@@ -213,16 +213,17 @@ static void ms_emit_function_preamble(struct node *func) {
 	if (!abi_data->is_variadic)
 		return;
 
-	asm_ins2("movq", R8(REG_RCX), MEM(16, REG_RBP));
-	asm_ins2("movq", R8(REG_RDX), MEM(24, REG_RBP));
-	asm_ins2("movq", R8(REG_R8), MEM(32, REG_RBP));
-	asm_ins2("movq", R8(REG_R9), MEM(40, REG_RBP));
+	codegen_frame_address_to_reg(16, REG_RAX);
+	asm_ins2("movq", R8(REG_RCX), MEM(0, REG_RAX));
+	asm_ins2("movq", R8(REG_RDX), MEM(8, REG_RAX));
+	asm_ins2("movq", R8(REG_R8), MEM(16, REG_RAX));
+	asm_ins2("movq", R8(REG_R9), MEM(24, REG_RAX));
 }
 
 static void ms_emit_va_start(struct node *result, struct node *func) {
 	struct ms_data *abi_data = func->function.abi_data;
 
-	asm_ins2("leaq", MEM(abi_data->n_args * 8 + 16, REG_RBP), R8(REG_RAX));
+	codegen_frame_address_to_reg(abi_data->n_args * 8 + 16, REG_RAX);
 	scalar_to_reg(result, REG_RDX);
 	asm_ins2("movq", R8(REG_RAX), MEM(0, REG_RDX));
 }
diff --git a/src/abi/sysv.c b/src/abi/sysv.c
index d9fd5f7..b4e5b1f 100644
--- a/src/abi/sysv.c
+++ b/src/abi/sysv.c
@@ -444,7 +444,7 @@ static void sysv_emit_va_start(struct node *result, struct node *func) {
 	scalar_to_reg(result, REG_RAX);
 	asm_ins2("movl", IMM(abi_data->gp_offset), MEM(gp_offset_offset, REG_RAX));
 	asm_ins2("movl", IMM(abi_data->fp_offset), MEM(fp_offset_offset, REG_RAX));
-	asm_ins2("leaq", MEM(abi_data->overflow_position, REG_RBP), R8(REG_RDI));
+	codegen_frame_address_to_reg(abi_data->overflow_position, REG_RDI);
 	asm_ins2("movq", R8(REG_RDI), MEM(overflow_arg_area_offset, REG_RAX));
 
 	int preamble_ptr = codegen_get_alloc_preamble();
diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index c8c62fd..632aad3 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -134,6 +134,17 @@ static void codegen_constant_to_rdi(struct constant *constant) {
 	}
 }
 
+// %rbp is not the address of the frame the caller
+// made, if the stack of the function is realigned.
+void codegen_frame_address_to_reg(int offset, int reg) {
+	if (rbp_save_info.has_saved_rsp) {
+		asm_ins2("movq", MEM(-rbp_save_info.offset, REG_RBP), R8(reg));
+		asm_ins2("leaq", MEM(offset, reg), R8(reg));
+	} else {
+		asm_ins2("leaq", MEM(offset, REG_RBP), R8(reg));
+	}
+}
+
 static void codegen_set_reg_chain(struct node *start) {
 	while (start) {
 		if (start->set_reg.is_sse) {
@@ -534,14 +545,14 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 		break;
 
 	case IR_LOAD_BASE_RELATIVE:
-		asm_ins2("leaq", MEM(ins->load_base_relative.offset, REG_RBP), R8(REG_RDI));
+		codegen_frame_address_to_reg(ins->load_base_relative.offset, REG_RDI);
 		asm_ins2("leaq", MEM(-ins->cg_info.stack_location, REG_RBP), R8(REG_RSI));
 
 		codegen_memcpy(ins->size);
 		break;
 
 	case IR_LOAD_BASE_RELATIVE_ADDRESS:
-		asm_ins2("leaq", MEM(ins->load_base_relative_address.offset, REG_RBP), R8(REG_RDI));
+		codegen_frame_address_to_reg(ins->load_base_relative_address.offset, REG_RDI);
 		scalar_to_reg(ins->arguments[0], REG_RSI);
 
 		codegen_memcpy(ins->load_base_relative_address.size);
diff --git a/src/codegen/codegen.h b/src/codegen/codegen.h
index 041de2d..8a15a4e 100644
--- a/src/codegen/codegen.h
+++ b/src/codegen/codegen.h
@@ -16,6 +16,7 @@ extern struct codegen_flags {
 
 void codegen(void);
 int codegen_get_alloc_preamble(void);
+void codegen_frame_address_to_reg(int offset, int reg);
 
 // TODO: Why is rdi not destination?
 // From rdi to rsi address
-- 
2.43.0


From 2c084a94204b8291ea8b254e60b1a91629af056d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:25 +0000
Subject: [PATCH 019/149] fix: do not overflow fixed size buffers in functions
 with more than 128 parameters

---
 src/abi/microsoft.c | 2 +-
 src/abi/sysv.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/abi/microsoft.c b/src/abi/microsoft.c
index d885fd7..79b0f9b 100644
--- a/src/abi/microsoft.c
+++ b/src/abi/microsoft.c
@@ -149,7 +149,7 @@ static void ms_expr_function(struct node *func, struct type *function_type, stru
 
 	int current_mem = 0;
 
-	struct node *inputs[128];
+	struct node **inputs = cc_malloc(sizeof *inputs * MAX(n_args, 1));
 
 	for (int i = 0; i < n_args; i++) {
 		int size = calculate_size(args[i]->parameter.type);
diff --git a/src/abi/sysv.c b/src/abi/sysv.c
index b4e5b1f..7d4fcd4 100644
--- a/src/abi/sysv.c
+++ b/src/abi/sysv.c
@@ -325,7 +325,7 @@ static void sysv_expr_function(struct node *func, struct type *type, struct symb
 		abi_data.returns_address = 1;
 	}
 
-	struct node *arg_addresses[128];
+	struct node **arg_addresses = cc_malloc(sizeof *arg_addresses * MAX(n_args, 1));
 	for (int i = 0; i < type->n - 1; i++) {
 		struct symbol_identifier *symbol = args[i];
 
-- 
2.43.0


From 56605abe14cd7177ac69298e6077f786a624bf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:41 +0000
Subject: [PATCH 020/149] fix: return to the caller when the end of a non-void
 function is reached

---
 src/parser/function_parser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index d4bd2b1..c0a3e8c 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -554,7 +554,9 @@ void parse_function(struct string_view name, struct type *type, int arg_n, struc
 			abi_expr_return(get_current_function(), &(struct evaluated_expression) { .type = EE_CONSTANT, .data_type = c.data_type, .constant = c}, &reg_state);
 			ir_return(reg_state);
 		}
-	} else if (current_ret_val == type_simple(ST_VOID)) {
+	} else {
+		// Reaching the end of a function returning a value is only undefined
+		// if the caller uses the value.
 		struct node *reg_state = NULL;
 		abi_expr_return(get_current_function(), &(struct evaluated_expression) { .type = EE_VOID }, &reg_state);
 		ir_return(reg_state);
-- 
2.43.0


From 5322ec9cf01bc6df5990f01c43477475894553eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:31 +0000
Subject: [PATCH 021/149] fix: pass a copy of aggregates passed by reference in
 the Microsoft ABI

---
 src/abi/microsoft.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/abi/microsoft.c b/src/abi/microsoft.c
index 79b0f9b..6ccdfec 100644
--- a/src/abi/microsoft.c
+++ b/src/abi/microsoft.c
@@ -71,6 +71,11 @@ static struct evaluated_expression ms_expr_call(struct evaluated_expression *cal
 		if (fits_into_reg(argument_types[i])) {
 			reg_to_push = ir_load(arg_addresses[i],
 								  calculate_size(argument_types[i]));
+		} else {
+			// The callee is allowed to modify the object, so pass a copy.
+			int size = calculate_size(argument_types[i]);
+			reg_to_push = ir_allocate(size, 0);
+			ir_copy_memory(reg_to_push, arg_addresses[i], size);
 		}
 
 		if (register_idx < 4) {
-- 
2.43.0


From 108b37742d50ec8b15c09975233d371152e9a270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:31 +0000
Subject: [PATCH 022/149] fix: return the hidden address in rax in the
 Microsoft ABI

---
 src/abi/microsoft.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/abi/microsoft.c b/src/abi/microsoft.c
index 6ccdfec..a900239 100644
--- a/src/abi/microsoft.c
+++ b/src/abi/microsoft.c
@@ -201,6 +201,7 @@ static void ms_expr_return(struct node *func, struct evaluated_expression *value
 		if (abi_data->returns_address) {
 			struct node *value_address = evaluated_expression_to_address(value);
 			ir_copy_memory(abi_data->ret_address, value_address, calculate_size(value->data_type));
+			*reg_state = ir_set_reg(abi_data->ret_address, *reg_state, REG_RAX, 0);
 		} else {
 			struct node *value_var = evaluated_expression_to_var(value);
 			*reg_state = ir_set_reg(value_var, *reg_state, 0, type_is_floating(value->data_type));
-- 
2.43.0


From ca3b22dd38e72be2174dac6b32215e55c71b23f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:31 +0000
Subject: [PATCH 023/149] fix: va_start in functions returning aggregates in
 the Microsoft ABI

---
 src/abi/microsoft.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/abi/microsoft.c b/src/abi/microsoft.c
index a900239..ec5be7b 100644
--- a/src/abi/microsoft.c
+++ b/src/abi/microsoft.c
@@ -229,7 +229,8 @@ static void ms_emit_function_preamble(struct node *func) {
 static void ms_emit_va_start(struct node *result, struct node *func) {
 	struct ms_data *abi_data = func->function.abi_data;
 
-	codegen_frame_address_to_reg(abi_data->n_args * 8 + 16, REG_RAX);
+	int n_slots = abi_data->n_args + (abi_data->returns_address ? 1 : 0);
+	codegen_frame_address_to_reg(n_slots * 8 + 16, REG_RAX);
 	scalar_to_reg(result, REG_RDX);
 	asm_ins2("movq", R8(REG_RAX), MEM(0, REG_RDX));
 }
-- 
2.43.0


From be91a6053d39f1f757d313e86eb670c7c905489c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:08 +0000
Subject: [PATCH 024/149] fix: allow a comma after the string in a braced
 string initializer

---
 src/parser/declaration.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 58598a7..9ca9727 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -936,8 +936,10 @@ static int match_specific_string(struct type **type, struct initializer *init, s
 
 		int braces = TACCEPT(T_LBRACE);
 		TEXPECT(token_type);
-		if (braces)
+		if (braces) {
+			TACCEPT(T_COMMA);
 			TEXPECT(T_RBRACE);
+		}
 
 		if ((*type)->type == TY_INCOMPLETE_ARRAY) {
 			struct type complete_array_params = {
-- 
2.43.0


From 45c301ac31b76b5712466a735e7d0997cef927ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:08 +0000
Subject: [PATCH 025/149] fix: do not write the terminating null beyond the end
 of a character array

---
 src/parser/declaration.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 9ca9727..d12d28f 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -951,6 +951,9 @@ static int match_specific_string(struct type **type, struct initializer *init, s
 			*type = type_create(&complete_array_params, (*type)->children);
 		}
 
+		// The terminating null character is left out if there is no room for it.
+		str.len = MIN(str.len, calculate_size(*type));
+
 		init->type = INIT_STRING;
 		init->string = str;
 
-- 
2.43.0


From 1e3158dff38ccf875247fe69677965a21cc5b180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:08 +0000
Subject: [PATCH 026/149] fix: rework brace-enclosed initializers: elements
 after nested designators, last union member wins, elided braces

---
 src/parser/declaration.c | 324 ++++++++++++++++++++-------------------
 1 file changed, 166 insertions(+), 158 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index d12d28f..7d1be45 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -12,7 +12,9 @@
 #include <abi/abi.h>
 
 #include <assert.h>
+#include <limits.h>
 #include <stdint.h>
+#include <stdlib.h>
 
 // Returns previous state of the bit.
 static int set_sbit(struct type_specifiers *ts, int bit_n) {
@@ -972,211 +974,217 @@ static int match_string(struct type **type, struct initializer *init, struct tok
 		match_specific_string(type, init, string_token, CHAR32_TYPE, T_STRING_CHAR32);
 }
 
-void parse_initializer_recursive(struct type **type, struct initializer *init, struct expr *expr,
-								 int inside_brace, int n, int *indices);
+// The object being initialized by the next element of a brace-enclosed list,
+// one level for each aggregate that has been entered (6.7.9p17-p23).
+struct initializer_level {
+	struct type *type;
+	struct initializer *init;
+	int index;
+};
+
+// Is the next token a string that is the whole initializer?
+static int is_string_initializer(struct type *type) {
+	if (!is_string_type(T0->type) || (type->type != TY_ARRAY && type->type != TY_INCOMPLETE_ARRAY))
+		return 0;
+
+	return T1->type == T_COMMA || T1->type == T_RBRACE || T1->type == T_SEMI_COLON;
+}
+
+// Can the expression initialize an object of the type as a whole?
+static int initializes_whole(struct expr *expr, struct type *type) {
+	return is_scalar(type) ||
+		type_make_const(expr->data_type, 0) == type_make_const(type, 0);
+}
 
-static void parse_brace_initializer(struct type **type, struct initializer *init, int idx,
-									int inside_brace, struct expr *expr) {
-	if (init->type == INIT_EMPTY)
+static struct initializer initializer_from_expr(struct expr *expr, struct type *type) {
+	return (struct initializer) {
+		.type = INIT_EXPRESSION,
+		.expr = is_scalar(type) ? expression_cast(expr, type) : expr
+	};
+}
+
+static int initializer_n_members(struct type *type) {
+	switch (type->type) {
+	case TY_ARRAY: return type->array.length;
+	case TY_STRUCT: return type->struct_data->n;
+	default: return 0;
+	}
+}
+
+// Get the initializer of a member, to be overwritten or added to.
+static struct initializer *initializer_select(struct initializer_level *level) {
+	struct initializer *init = level->init;
+
+	if (init->type != INIT_BRACE)
 		*init = (struct initializer) { .type = INIT_BRACE };
 
-	if (!inside_brace)
-		TEXPECT(T_LBRACE);
-
-	int max_members = -1;
-	switch ((*type)->type) {
-	case TY_ARRAY:
-		max_members = (*type)->array.length;
-		break;
-	case TY_INCOMPLETE_ARRAY:
-		max_members = -1;
-		break;
-	case TY_STRUCT:
-		max_members = (*type)->struct_data->n;
-		if ((*type)->struct_data->is_union)
-			max_members = 1;
-		// Advance until end of struct, or reaching a different offset.
-		break;
-	default: ICE("Invalid top type");
+	// Only one member of a union is initialized, the last one.
+	if (level->type->type == TY_STRUCT && level->type->struct_data->is_union) {
+		for (int i = 0; i < init->brace.size; i++) {
+			if (i != level->index)
+				init->brace.entries[i] = (struct initializer) { .type = INIT_EMPTY };
+		}
 	}
 
-	if (max_members != -1 && inside_brace && idx >= max_members)
-		return;
+	return initializer_add_entry(init, level->index);
+}
 
-	for (;;) {
-		static int designator_cap = 0;
-		static int *designators = NULL;
-		int designator_size = 0;
-		struct type *current_type = *type;
-		for (;;) {
-			size_t index;
-			(void)index;
-			if (T0->type == T_LBRACK) {
-				if (inside_brace)
-					return;
-				TEXPECT(T_LBRACK);
-				struct expr *expr = expression_cast(parse_expression(), type_simple(ST_ULLONG));
-				struct constant *c = expression_to_constant(expr);
-				if (!c)
-					ERROR(T0->pos, "Expected constant expression in array designator.");
-				TEXPECT(T_RBRACK);
+static void parse_initializer_recursive(struct type **type, struct initializer *init);
+
+static void parse_brace_initializer(struct type *type, struct initializer *init) {
+	struct initializer_level *levels = NULL;
+	int size = 0, cap = 0;
+
+	*init = (struct initializer) { .type = INIT_BRACE };
+	ADD_ELEMENT(size, cap, levels) = (struct initializer_level) { type, init, 0 };
 
-				assert(c->type == CONSTANT_TYPE && type_is_simple(c->data_type, ST_ULLONG));
+	TEXPECT(T_LBRACE);
 
-				ADD_ELEMENT(designator_size, designator_cap, designators) = c->uint_d;
-				current_type = type_select(current_type, c->uint_d);
-			} else if (T0->type == T_DOT) {
-				if (inside_brace)
-					return;
-				TEXPECT(T_DOT);
-				int n = 0, *indices = 0;
-				if (!type_search_member(current_type, T0->str, &n, &indices))
-					ERROR(T0->pos, "Could not find member of name %s", dbg_token(T0));
+	do {
+		if (T0->type == T_LBRACK || T0->type == T_DOT) {
+			size = 0;
 
-				TEXPECT(T_IDENT);
+			for (;;) {
+				struct type *current_type = type;
+				struct initializer *current_init = init;
+
+				if (T0->type != T_LBRACK && T0->type != T_DOT)
+					break;
 
-				for (int i = n - 1; i >= 0; i--) {
-					ADD_ELEMENT(designator_size, designator_cap, designators) = indices[i];
-					current_type = type_select(current_type, indices[i]);
+				if (size) {
+					current_init = initializer_select(&levels[size - 1]);
+					current_type = type_select(levels[size - 1].type, levels[size - 1].index);
 				}
-			} else {
-				break;
-			}
-		}
 
-		int *pass_designators = NULL;
-		int pass_n = 0;
+				if (TACCEPT(T_LBRACK)) {
+					if (current_type->type != TY_ARRAY && current_type->type != TY_INCOMPLETE_ARRAY)
+						ERROR(T0->pos, "Array designator in initializer to %s.", dbg_type(current_type));
 
-		if (designator_size) {
-			TEXPECT(T_A);
+					struct expr *expr = expression_cast(parse_expression(), type_simple(ST_ULLONG));
+					struct constant *c = expression_to_constant(expr);
+					if (!c || c->type != CONSTANT_TYPE)
+						ERROR(T0->pos, "Expected constant expression in array designator.");
+					TEXPECT(T_RBRACK);
 
-			if (designator_size > 0)
-				idx = designators[0];
+					if (c->uint_d > INT_MAX || (current_type->type == TY_ARRAY && c->uint_d >= (uint64_t)current_type->array.length))
+						ERROR(T0->pos, "Array designator out of bounds.");
 
-			if (designator_size > 1) {
-				pass_designators = designators + 1;
-				pass_n = designator_size - 1;
+					ADD_ELEMENT(size, cap, levels) = (struct initializer_level) { current_type, current_init, c->uint_d };
+				} else {
+					TEXPECT(T_DOT);
+					int n = 0, *indices = 0;
+					if (!type_search_member(current_type, T0->str, &n, &indices))
+						ERROR(T0->pos, "Could not find member of name %s", dbg_token(T0));
+
+					TEXPECT(T_IDENT);
+
+					for (int i = n - 1; i >= 0; i--) {
+						if (i != n - 1) {
+							current_init = initializer_select(&levels[size - 1]);
+							current_type = type_select(levels[size - 1].type, levels[size - 1].index);
+						}
+						ADD_ELEMENT(size, cap, levels) = (struct initializer_level) { current_type, current_init, indices[i] };
+					}
+				}
 			}
+
+			TEXPECT(T_A);
 		}
 
-		struct type *child_type = type_select(*type, idx);
-		parse_initializer_recursive(&child_type,
-									initializer_add_entry(init, idx), expr, designator_size < 1, pass_n, pass_designators);
-		expr = NULL;
+		if (!size)
+			ERROR(T0->pos, "Excess elements in initializer.");
 
-		if (T0->type == T_LBRACK || T0->type == T_DOT)
-			continue;
+		struct expr *expr = NULL;
 
-		idx++;
+		for (;;) {
+			struct initializer_level *level = &levels[size - 1];
+			if (level->type->type != TY_INCOMPLETE_ARRAY &&
+				level->index >= initializer_n_members(level->type))
+				ERROR(T0->pos, "Excess elements in initializer.");
 
-		if (inside_brace && idx == max_members)
-			break;
+			struct initializer *child_init = initializer_select(level);
+			struct type *child_type = type_select(level->type, level->index);
 
-		if (!TACCEPT(T_COMMA))
-			break;
+			if (child_type->type == TY_INCOMPLETE_ARRAY)
+				ERROR(T0->pos, "Initialization of flexible array member.");
 
-		if (T0->type == T_RBRACE)
-			break;
-	}
+			if (!expr && (T0->type == T_LBRACE || is_scalar(child_type))) {
+				parse_initializer_recursive(&child_type, child_init);
+				break;
+			}
 
-	if (!inside_brace)
-		TEXPECT(T_RBRACE);
-}
+			if (!expr && is_string_initializer(child_type) &&
+				match_string(&child_type, child_init, *T0))
+				break;
 
-// 6.7.9p17-6.7.8p23 and some surrounding paragraphs.
+			if (!expr && !(is_string_type(T0->type) && type_is_aggregate(child_type)))
+				expr = parse_assignment_expression();
 
-// This is tricky and very easy to get wrong.
-// See tests/initializers.c to see some examples.
-void parse_initializer_recursive(struct type **type, struct initializer *init, struct expr *expr,
-								 int inside_brace, int n, int *indices) {
-	int current_idx = 0;
-	if (n > 0) {
-		current_idx = indices[0];
-		struct type *selected = type_select(*type, current_idx);
-		if (init->type == INIT_EMPTY)
-			*init = (struct initializer) { .type = INIT_BRACE };
-		struct initializer *next_init = initializer_add_entry(init, current_idx);
+			if (expr && initializes_whole(expr, child_type)) {
+				*child_init = initializer_from_expr(expr, child_type);
+				break;
+			}
 
-		parse_initializer_recursive(&selected, next_init, expr, inside_brace, n - 1, indices + 1);
+			if (!type_is_aggregate(child_type))
+				ERROR(T0->pos, "Error initializing %s\n", strdup(dbg_type(child_type)));
 
-		if (!TACCEPT(T_COMMA))
-			return;
+			// The braces are left out, enter the aggregate.
+			if (child_init->type != INIT_BRACE)
+				*child_init = (struct initializer) { .type = INIT_BRACE };
+			ADD_ELEMENT(size, cap, levels) = (struct initializer_level) { child_type, child_init, 0 };
+		}
 
-		if (T0->type == T_RBRACE)
-			return;
+		while (size) {
+			struct initializer_level *level = &levels[size - 1];
+			int is_union = level->type->type == TY_STRUCT && level->type->struct_data->is_union;
 
-		parse_brace_initializer(type, init, current_idx + 1, 1, expr);
-		return;
-	}
+			level->index++;
+			if (level->type->type == TY_INCOMPLETE_ARRAY ||
+				(!is_union && level->index < initializer_n_members(level->type)))
+				break;
 
-	int is_aggregate = type_is_aggregate(*type);
+			size--;
+		}
+	} while (TACCEPT(T_COMMA) && T0->type != T_RBRACE);
+
+	TEXPECT(T_RBRACE);
 
-	int is_str = 0, is_brace = 0;
-	struct token string_token = { 0 };
+	free(levels);
+}
 
-	if (!expr && is_scalar(*type)) {
+// See tests/initializers.c to see some examples.
+static void parse_initializer_recursive(struct type **type, struct initializer *init) {
+	if (is_string_initializer(*type) && match_string(type, init, *T0)) {
+	} else if (T0->type == T_LBRACE && is_string_type(T1->type) &&
+			   (T2->type == T_RBRACE || T2->type == T_COMMA) &&
+			   match_string(type, init, *T1)) {
+	} else if (T0->type == T_LBRACE && type_is_aggregate(*type)) {
+		parse_brace_initializer(*type, init);
+	} else {
 		int has_braces = TACCEPT(T_LBRACE);
 
-		expr = parse_assignment_expression();
+		struct expr *expr = parse_assignment_expression();
 		if (!expr)
 			ERROR(T0->pos, "Expected expression in initializer to %s got %s.", dbg_type(*type), dbg_token(T0));
 
-		if (has_braces)
-			TEXPECT(T_RBRACE);
-	}
-
-	if (!expr) {
-		is_str = 1;
-		if (T0->type == T_LBRACE && is_string_type(T1->type) && T2->type == T_RBRACE)
-			string_token = *T1;
-		else if (is_string_type(T0->type))
-			string_token = *T0;
-		else
-			is_str = 0;
-	}
-
-	if (!expr && !is_str && T0->type == T_LBRACE)
-		is_brace = 1;
-
-	if (!is_str && !is_brace && !expr) {
-		expr = parse_assignment_expression();
-	}
+		if (!initializes_whole(expr, *type))
+			ERROR(T0->pos, "Error initializing %s\n", strdup(dbg_type(*type)));
 
-	if (is_aggregate && inside_brace && T0->type != T_LBRACE &&
-		!is_str && expr->data_type != *type) {
-		// TODO: This seems a bit hacky.
-		parse_brace_initializer(type, init, current_idx, 1, expr);
-		return;
-	}
+		*init = initializer_from_expr(expr, *type);
 
-	if (is_str && match_string(type, init, string_token)) {
-	} else if (expr) {
-		if (is_aggregate && expr->data_type != *type) {
-			parse_initializer_recursive(type, init, expr, 1, -1, NULL);
-		} else {
-			init->type = INIT_EXPRESSION;
-			init->expr = expression_cast(expr, *type);
+		if (has_braces) {
+			TACCEPT(T_COMMA);
+			TEXPECT(T_RBRACE);
 		}
-	} else if (T0->type == T_LBRACE && is_aggregate) {
-		parse_brace_initializer(type, init, 0, 0, NULL);
-	} else if (is_str && is_aggregate) {
-		parse_brace_initializer(type, init, current_idx, 1, expr);
-	} else {
-		ERROR(T0->pos, "Error initializing %s\n", strdup(dbg_type(*type)));
 	}
 
 	if ((*type)->type == TY_INCOMPLETE_ARRAY) {
-		int max_index = 0;
-		switch (init->type) {
-		case INIT_BRACE: max_index = init->brace.size; break;
-		case INIT_STRING: NOTIMP();
-		default:
+		if (init->type != INIT_BRACE)
 			ERROR(T0->pos, "Expected incomplete array to be completed in initialzier.");
-		}
 
 		struct type complete_array_params = {
 			.type = TY_ARRAY,
-			.array.length = max_index,
+			.array.length = init->brace.size,
 			.n = 1
 		};
 
@@ -1187,7 +1195,7 @@ void parse_initializer_recursive(struct type **type, struct initializer *init, s
 
 struct initializer parse_initializer(struct type **type) {
 	struct initializer ret = { 0 };
-	parse_initializer_recursive(type, &ret, NULL, 0, -1, NULL);
+	parse_initializer_recursive(type, &ret);
 	return ret;
 }
 
-- 
2.43.0


From b932bd653fcb28142f12ea334a9d7b51035b37c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:17 +0000
Subject: [PATCH 027/149] fix: hexadecimal escape sequences

---
 src/escape_sequence.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/escape_sequence.c b/src/escape_sequence.c
index 48ebb22..dc9911f 100644
--- a/src/escape_sequence.c
+++ b/src/escape_sequence.c
@@ -25,7 +25,7 @@ int escape_sequence_read(uint32_t *out, const char **start, int n) {
 		s++;
 		uint32_t result = 0;
 		for (int i = 0; i < n && is_hexadecimal(*s); i++, s++) {
-			result *= 8;
+			result *= 16;
 			result += char_to_int(*s);
 		}
 		*out = result;
-- 
2.43.0


From 60db03011b08a0f2a28d76ee3d70e303eb1aeed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:58 +0000
Subject: [PATCH 028/149] fix: sizeof applied to a compound literal

---
 src/parser/expression.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index c6e8637..f50dc29 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -572,6 +572,14 @@ static struct expr *parse_prefix(void) {
 			type = parse_type_name();
 			if (type) {
 				TEXPECT(T_RPAR);
+				if (T0->type == T_LBRACE) {
+					struct initializer init = parse_initializer(&type);
+					struct expr *literal = expr_new((struct expr) {
+							.type = E_COMPOUND_LITERAL,
+							.compound_literal = { type, init }
+						});
+					type = parse_pratt_with_lhs(PREFIX_PREC, literal)->data_type;
+				}
 			} else {
 				t_push(t);
 				type = parse_pratt(PREFIX_PREC)->data_type;
-- 
2.43.0


From 858b74491d47aac1c8d4f4b319fa86102f6772c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:22 +0000
Subject: [PATCH 029/149] fix: division by zero and LONG_MIN / -1 in constant
 expressions

---
 src/ir/operators.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/ir/operators.c b/src/ir/operators.c
index 2af7aa7..55a73ff 100644
--- a/src/ir/operators.c
+++ b/src/ir/operators.c
@@ -89,10 +89,15 @@ int operators_constant(enum operator_type op,
 		default: NOTIMP();
 		}
 	} else if (type_is_integer(type) && is_signed(st)) {
-		// Overflow is undefined, so we can just ignore truncation completely.
-		if ((op == OP_DIV || op == OP_DIV) && rhs.int_d == 0)
+		if ((op == OP_DIV || op == OP_MOD) && rhs.int_d == 0)
 			return 0;
 
+		// The only overflowing division, avoid performing it on the host.
+		if ((op == OP_DIV || op == OP_MOD) && rhs.int_d == -1) {
+			lhs.int_d = op == OP_DIV ? (constant_int)-lhs.uint_d : 0;
+			rhs.int_d = 1;
+		}
+
 		switch (op) {
 		case OP_ADD: res.int_d = lhs.int_d + rhs.int_d; break;
 		case OP_SUB: res.int_d = lhs.int_d - rhs.int_d; break;
@@ -114,6 +119,10 @@ int operators_constant(enum operator_type op,
 		}
 	} else if (type_is_integer(type) && !is_signed(st)) {
 		int sign = 0;
+
+		if ((op == OP_DIV || op == OP_MOD) && rhs.uint_d == 0)
+			return 0;
+
 		switch (op) {
 		case OP_ADD: res.uint_d = lhs.uint_d + rhs.uint_d; break;
 		case OP_SUB: res.uint_d = lhs.uint_d - rhs.uint_d; break;
-- 
2.43.0


From 4e22e0ebf2ad573f93af0caf1fe6260e18083db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:42 +0000
Subject: [PATCH 030/149] fix: wrap folded signed arithmetic at the width of
 its type

---
 src/ir/operators.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ir/operators.c b/src/ir/operators.c
index 55a73ff..818a378 100644
--- a/src/ir/operators.c
+++ b/src/ir/operators.c
@@ -117,6 +117,9 @@ int operators_constant(enum operator_type op,
 		case OP_NOT_EQUAL: res.int_d = lhs.int_d != rhs.int_d; break;
 		default: NOTIMP();
 		}
+
+		// Wrap around in case of overflow, as the generated code does.
+		constant_normalize(&res);
 	} else if (type_is_integer(type) && !is_signed(st)) {
 		int sign = 0;
 
@@ -187,6 +190,8 @@ int operators_constant_unary(enum unary_operator_type op,
 		case UOP_BNOT: res.int_d = ~rhs.int_d; break;
 		default: NOTIMP();
 		}
+
+		constant_normalize(&res);
 	} else if (type_is_integer(type) && !is_signed(st)) {
 		switch (op) {
 		case UOP_PLUS: res.uint_d = +rhs.uint_d; break;
-- 
2.43.0


From 50f27e25317535e965e0c3a9a6055997470a9b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:29 +0000
Subject: [PATCH 031/149] fix: constant pointer arithmetic with an index of any
 integer type

---
 src/parser/expression.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index f50dc29..093d222 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -954,7 +954,7 @@ int evaluate_constant_expression(struct expr *expr,
 			return 0;
 
 		if (lhs.type == CONSTANT_LABEL_POINTER &&
-			type_is_simple(rhs.data_type, ST_INT) &&
+			type_is_integer(rhs.data_type) &&
 			rhs.type == CONSTANT_TYPE) {
 			*constant = lhs;
 			int size = calculate_size(type_deref(lhs.data_type));
-- 
2.43.0


From 0bfa29cc4634de31cc2218c07757439193ab1150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:07 +0000
Subject: [PATCH 032/149] fix: evaluate only the selected operand of a constant
 conditional, allow address constants in it

---
 src/parser/expression.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 093d222..ca2a2f0 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -1030,24 +1030,27 @@ int evaluate_constant_expression(struct expr *expr,
 	} break;
 
 	case E_CONDITIONAL: {
-		struct constant lhs, mid, rhs;
-		if (!evaluate_constant_expression(expr->args[0], &lhs))
+		struct constant condition, operand;
+		if (!evaluate_constant_expression(expr->args[0], &condition))
 			return 0;
-		if (!evaluate_constant_expression(expr->args[1], &mid))
+
+		int is_zero;
+		if (condition.type == CONSTANT_TYPE)
+			is_zero = constant_is_zero(&condition);
+		else if (condition.type == CONSTANT_LABEL_POINTER && condition.label.label != -1)
+			is_zero = 0; // The address of an object is never null.
+		else
 			return 0;
-		if (!evaluate_constant_expression(expr->args[2], &rhs))
+
+		// Only the selected operand is evaluated.
+		if (!evaluate_constant_expression(expr->args[is_zero ? 2 : 1], &operand))
 			return 0;
 
-		if (lhs.type != CONSTANT_TYPE ||
-			mid.type != CONSTANT_TYPE ||
-			rhs.type != CONSTANT_TYPE)
+		if (operand.type != CONSTANT_TYPE &&
+			operand.type != CONSTANT_LABEL_POINTER)
 			return 0;
 
-		if (constant_is_zero(&lhs)) {
-			*constant = rhs;
-		} else {
-			*constant = mid;
-		}
+		*constant = operand;
 	} break;
 
 	case E_ADDRESS_OF: {
-- 
2.43.0


From 0a49bbc5711e2e871b2b98d9e464664189f1a5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:29 +0000
Subject: [PATCH 033/149] fix: constant addresses based on pointers with a
 constant value, and differences of constant addresses

---
 src/parser/expression.c | 89 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 89 insertions(+)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index ca2a2f0..4682afe 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -913,6 +913,35 @@ struct expr *parse_expression(void) {
 	return parse_pratt(0);
 }
 
+// Address of an lvalue designated through a pointer with a constant value,
+// as in the classic definition of offsetof.
+static int evaluate_constant_address(struct expr *lvalue, constant_uint *address) {
+	if (lvalue->type == E_INDIRECTION) {
+		struct constant pointer;
+		if (!evaluate_constant_expression(lvalue->args[0], &pointer) ||
+			pointer.type != CONSTANT_TYPE || !type_is_pointer(pointer.data_type))
+			return 0;
+
+		*address = pointer.uint_d;
+		return 1;
+	} else if (lvalue->type == E_DOT_OPERATOR) {
+		if (!evaluate_constant_address(lvalue->member.lhs, address))
+			return 0;
+
+		int offset, bit_offset, bit_size;
+		type_get_offsets(lvalue->member.lhs->data_type, lvalue->member.member_idx,
+						 &offset, &bit_offset, &bit_size);
+
+		if (bit_size != -1)
+			return 0;
+
+		*address += offset;
+		return 1;
+	}
+
+	return 0;
+}
+
 // Constant expressions.
 int evaluate_constant_expression(struct expr *expr,
 								 struct constant *constant) {
@@ -934,6 +963,10 @@ int evaluate_constant_expression(struct expr *expr,
 				constant->type = CONSTANT_TYPE;
 				constant->data_type = expr->cast.target;
 				constant->uint_d = rhs.label.offset;
+			} else if (rhs.type == CONSTANT_TYPE &&
+					   type_is_integer(expr->cast.target)) {
+				rhs.data_type = type_simple(abi_info.size_type);
+				*constant = constant_cast(rhs, expr->cast.target);
 			} else {
 				return 0;
 			}
@@ -965,12 +998,48 @@ int evaluate_constant_expression(struct expr *expr,
 				constant->label.offset -= rhs.int_d * size;
 			}
 
+			return 1;
+		} else if (lhs.type == CONSTANT_TYPE && type_is_pointer(lhs.data_type) &&
+				   type_is_integer(rhs.data_type) &&
+				   rhs.type == CONSTANT_TYPE) {
+			*constant = lhs;
+			int size = calculate_size(type_deref(lhs.data_type));
+
+			if (expr->type == E_POINTER_ADD) {
+				constant->uint_d += rhs.int_d * size;
+			} else if (expr->type == E_POINTER_SUB) {
+				constant->uint_d -= rhs.int_d * size;
+			}
+
 			return 1;
 		}
 
 		return 0;
 	} break;
 
+	case E_POINTER_DIFF: {
+		struct constant lhs, rhs;
+		if (!evaluate_constant_expression(expr->args[0], &lhs))
+			return 0;
+		if (!evaluate_constant_expression(expr->args[1], &rhs))
+			return 0;
+
+		int size = calculate_size(type_deref(lhs.data_type));
+		if (size <= 0)
+			return 0;
+
+		constant_int difference;
+		if (lhs.type == CONSTANT_TYPE && rhs.type == CONSTANT_TYPE)
+			difference = lhs.uint_d - rhs.uint_d;
+		else if (lhs.type == CONSTANT_LABEL_POINTER && rhs.type == CONSTANT_LABEL_POINTER &&
+				 lhs.label.label == rhs.label.label)
+			difference = lhs.label.offset - rhs.label.offset;
+		else
+			return 0;
+
+		*constant = constant_simple_signed(expr->data_type->simple, difference / size);
+	} break;
+
 	case E_DOT_OPERATOR: {
 		struct constant lhs;
 		if (!evaluate_constant_expression(expr->member.lhs, &lhs))
@@ -1017,6 +1086,16 @@ int evaluate_constant_expression(struct expr *expr,
 	} break;
 
 	case E_ARRAY_PTR_DECAY: {
+		constant_uint address;
+		if (evaluate_constant_address(expr->args[0], &address)) {
+			*constant = (struct constant) {
+				.type = CONSTANT_TYPE,
+				.data_type = expr->data_type,
+				.uint_d = address
+			};
+			return 1;
+		}
+
 		if (expr->args[0]->type != E_CONSTANT)
 			return 0;
 
@@ -1054,6 +1133,16 @@ int evaluate_constant_expression(struct expr *expr,
 	} break;
 
 	case E_ADDRESS_OF: {
+		constant_uint address;
+		if (evaluate_constant_address(expr->args[0], &address)) {
+			*constant = (struct constant) {
+				.type = CONSTANT_TYPE,
+				.data_type = expr->data_type,
+				.uint_d = address
+			};
+			return 1;
+		}
+
 		struct constant operand;
 		if (!evaluate_constant_expression(expr->args[0], &operand))
 			return 0;
-- 
2.43.0


From f5d2a79932c72b81a8ca2da02ba936d9753622bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:46 +0000
Subject: [PATCH 034/149] fix: reject initializers of static objects that are
 not constant instead of emitting zeros

---
 src/codegen/rodata.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/codegen/rodata.c b/src/codegen/rodata.c
index 3d39193..e0b6970 100644
--- a/src/codegen/rodata.c
+++ b/src/codegen/rodata.c
@@ -142,6 +142,8 @@ static void codegen_initializer_recursive(struct initializer *init, struct type
 										  -1, -1,
 										  buffer, labels, label_offsets,
 										  is_label);
+		} else {
+			ERROR(init->expr->pos, "Initializer of an object with static storage duration is not constant.");
 		}
 	} break;
 	case INIT_BRACE:
-- 
2.43.0


From 6558a0396118c100de37660466371f79a9eacd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:28 +0000
Subject: [PATCH 035/149] fix: compound literals nested in static compound
 literals

---
 src/codegen/rodata.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/codegen/rodata.c b/src/codegen/rodata.c
index e0b6970..5d59e6f 100644
--- a/src/codegen/rodata.c
+++ b/src/codegen/rodata.c
@@ -161,6 +161,7 @@ static void codegen_initializer_recursive(struct initializer *init, struct type
 }
 
 void codegen_initializer(struct type *type, struct initializer *init);
+static void codegen_pre_initializer(struct initializer *init);
 
 static void codegen_compound_literals(struct expr **expr, int lvalue) {
 	switch ((*expr)->type) {
@@ -173,6 +174,9 @@ static void codegen_compound_literals(struct expr **expr, int lvalue) {
 		break;
 	case E_GENERIC_SELECTION:
 	case E_COMPOUND_LITERAL:
+		// A compound literal can itself contain compound literals.
+		codegen_pre_initializer(&(*expr)->compound_literal.init);
+
 		if (lvalue) {
 			label_id label = register_label();//register_label_name(sv_from_str(strdup(name)));
 			asm_label(0, label);
-- 
2.43.0


From 8837468cf77f2f6e7b88f583d0ee399ce7fbcca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:37 +0000
Subject: [PATCH 036/149] fix: alignment of compound literals with static
 storage duration and of the objects referring to them

---
 src/codegen/rodata.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/codegen/rodata.c b/src/codegen/rodata.c
index 5d59e6f..9b5d4ab 100644
--- a/src/codegen/rodata.c
+++ b/src/codegen/rodata.c
@@ -179,6 +179,7 @@ static void codegen_compound_literals(struct expr **expr, int lvalue) {
 
 		if (lvalue) {
 			label_id label = register_label();//register_label_name(sv_from_str(strdup(name)));
+			asm_align(calculate_alignment((*expr)->compound_literal.type));
 			asm_label(0, label);
 			codegen_initializer((*expr)->compound_literal.type,
 								&(*expr)->compound_literal.init);
@@ -311,6 +312,10 @@ static void codegen_static_var(struct static_var *static_var) {
 	(void)static_var;
 	asm_section(".data");
 
+	// This emits the compound literals the initializer refers to.
+	if (static_var->init.type != INIT_EMPTY)
+		codegen_pre_initializer(&static_var->init);
+
 	if (static_var->alignment)
 		asm_align(static_var->alignment);
 	else
@@ -321,8 +326,6 @@ static void codegen_static_var(struct static_var *static_var) {
 
 		asm_zero(calculate_size(static_var->type));
 	} else {
-		codegen_pre_initializer(&static_var->init);
-
 		asm_label(static_var->global, static_var->label_);
 
 		codegen_initializer(static_var->type, &static_var->init);
-- 
2.43.0


From fe1527d5fdb0d4dee898de84fed57227057b8651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:24 +0000
Subject: [PATCH 037/149] fix: constant comparisons of pointers with constant
 values

---
 src/parser/expression.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 4682afe..3d70998 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -1071,6 +1071,9 @@ int evaluate_constant_expression(struct expr *expr,
 			return 0;
 		if (!evaluate_constant_expression(expr->args[1], &rhs))
 			return 0;
+		if (lhs.type == CONSTANT_TYPE && type_is_pointer(lhs.data_type) &&
+			rhs.type == CONSTANT_TYPE && type_is_pointer(rhs.data_type))
+			lhs.data_type = rhs.data_type = type_simple(abi_info.size_type);
 		if (!operators_constant(expr->binary_op, lhs, rhs, constant))
 			return 0;
 	} break;
-- 
2.43.0


From 8ce60aac27b029a719fbbdacf8de8a669dab504c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:30 +0000
Subject: [PATCH 038/149] fix: diagnose integer constants that fit in no type

---
 src/arch/x64.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/arch/x64.c b/src/arch/x64.c
index c66cd74..919a207 100644
--- a/src/arch/x64.c
+++ b/src/arch/x64.c
@@ -369,6 +369,7 @@ static struct constant floating_point_constant_from_string(struct string_view sv
 
 static struct constant integer_constant_from_string(struct string_view str) {
 	unsigned long long parsed = 0; // TODO: Avoid implementation defined behaviour.
+	int overflow = 0;
 
 	enum {
 		BASE_DECIMAL,
@@ -401,32 +402,41 @@ static struct constant integer_constant_from_string(struct string_view str) {
 		int low_hex_digit = (str.str[start] >= 'a' && str.str[start] <= 'f');
 		int high_hex_digit = (str.str[start] >= 'A' && str.str[start] <= 'F');
 
+		int radix = 0;
 		if (base == BASE_DECIMAL) {
 			if (!decimal_digit)
 				break;
-			parsed *= 10;
+			radix = 10;
 		} else if (base == BASE_HEXADECIMAL) {
 			if (!decimal_digit && !low_hex_digit && !high_hex_digit)
 				break;
-			parsed *= 16;
+			radix = 16;
 		} else if (base == BASE_OCTAL) {
 			if (!octal_digit)
 				break;
-			parsed *= 8;
+			radix = 8;
 		} else if (base == BASE_BINARY) {
 			if (!binary_digit)
 				break;
-			parsed *= 2;
+			radix = 2;
 		}
 
+		unsigned long long digit = 0;
 		if (decimal_digit)
-			parsed += str.str[start] - '0';
+			digit = str.str[start] - '0';
 		else if (low_hex_digit)
-			parsed += str.str[start] - 'a' + 10;
+			digit = str.str[start] - 'a' + 10;
 		else if (high_hex_digit)
-			parsed += str.str[start] - 'A' + 10;
+			digit = str.str[start] - 'A' + 10;
+
+		overflow |= parsed > ULLONG_MAX / radix;
+		parsed = parsed * radix + digit;
+		overflow |= parsed < digit;
 	}
 
+	if (overflow)
+		ICE("%.*s does not fit into any type", str.len, str.str);
+
 	int allow_unsigned = base == BASE_HEXADECIMAL || base == BASE_OCTAL || base == BASE_BINARY;
 	int allow_signed = 1;
 	int allow_int = 1;
-- 
2.43.0


From a7f4151004b886b49724f4ad06143aa03a8d656d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:39 +0000
Subject: [PATCH 039/149] fix: reject invalid suffixes of integer constants

---
 src/arch/x64.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/arch/x64.c b/src/arch/x64.c
index 919a207..199bacf 100644
--- a/src/arch/x64.c
+++ b/src/arch/x64.c
@@ -369,7 +369,7 @@ static struct constant floating_point_constant_from_string(struct string_view sv
 
 static struct constant integer_constant_from_string(struct string_view str) {
 	unsigned long long parsed = 0; // TODO: Avoid implementation defined behaviour.
-	int overflow = 0;
+	int overflow = 0, n_digits = 0;
 
 	enum {
 		BASE_DECIMAL,
@@ -432,8 +432,12 @@ static struct constant integer_constant_from_string(struct string_view str) {
 		overflow |= parsed > ULLONG_MAX / radix;
 		parsed = parsed * radix + digit;
 		overflow |= parsed < digit;
+		n_digits++;
 	}
 
+	if (n_digits == 0)
+		ICE("Invalid format of integer constant: %.*s", str.len, str.str);
+
 	if (overflow)
 		ICE("%.*s does not fit into any type", str.len, str.str);
 
@@ -443,19 +447,22 @@ static struct constant integer_constant_from_string(struct string_view str) {
 	int allow_long = 1;
 	int allow_llong = 1;
 
+	int has_unsigned = 0, has_long = 0;
 	while (start < str.len) {
-		if (start + 1 < str.len &&
-			((str.str[start] == 'l' && str.str[start + 1] == 'l') ||
-			 (str.str[start] == 'L' && str.str[start + 1] == 'L'))) {
-			start += 2;
-			allow_int = allow_long = 0;
-		} else if (str.str[start] == 'l' || str.str[start] == 'L') {
-			start += 1;
+		char suffix = str.str[start];
+		if ((suffix == 'l' || suffix == 'L') && !has_long) {
+			has_long = 1;
 			allow_int = 0;
-		} else if (str.str[start] == 'u' || str.str[start] == 'U') {
-			start += 1;
+			start++;
+			if (start < str.len && str.str[start] == suffix) {
+				allow_long = 0;
+				start++;
+			}
+		} else if ((suffix == 'u' || suffix == 'U') && !has_unsigned) {
+			has_unsigned = 1;
 			allow_unsigned = 1;
 			allow_signed = 0;
+			start++;
 		} else {
 			ICE("Invalid format of integer constant: %.*s", str.len, str.str);
 		}
-- 
2.43.0


From fd166d3b19d3e42ba34f72c9c7e9ad2144ac284c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:49 +0000
Subject: [PATCH 040/149] fix: reject malformed floating constants

---
 src/arch/x64.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/arch/x64.c b/src/arch/x64.c
index 199bacf..5c35eae 100644
--- a/src/arch/x64.c
+++ b/src/arch/x64.c
@@ -349,16 +349,17 @@ static int is_float(struct string_view str) {
 }
 
 static struct constant floating_point_constant_from_string(struct string_view sv) {
-	char *str = sv_to_str(sv);
-	double d = strtod(str, NULL);
-	char suffix = str[strlen(str) - 1];
+	char *str = sv_to_str(sv), *suffix;
+	double d = strtod(str, &suffix);
 
 	struct constant res = { .type = CONSTANT_TYPE };
-	if (suffix == 'f' || suffix == 'F') {
+	if (strcmp(suffix, "f") == 0 || strcmp(suffix, "F") == 0) {
 		res.data_type = type_simple(ST_FLOAT);
 		res.float_d = d;
-	} else if (suffix == 'l' || suffix == 'L') {
+	} else if (strcmp(suffix, "l") == 0 || strcmp(suffix, "L") == 0) {
 		ICE("Constants of type long double is not supported by this compiler. %s", str);
+	} else if (suffix == str || *suffix) {
+		ICE("Invalid format of floating constant: %s", str);
 	} else {
 		res.data_type = type_simple(ST_DOUBLE);
 		res.double_d = d;
-- 
2.43.0


From fdeb72fa7b1608d40a6e5b253eb69da235edc5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:31 +0000
Subject: [PATCH 041/149] fix: accept static assertions in structure
 declarations

---
 src/parser/declaration.c | 72 +++++++++++++++++++++++-----------------
 1 file changed, 41 insertions(+), 31 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 7d1be45..ddf0bc8 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -341,6 +341,40 @@ int parse_enum(struct type_specifiers *ts) {
 	return 1;
 }
 
+static int parse_static_assertion(void) {
+	if (!TACCEPT(T_KSTATIC_ASSERT))
+		return 0;
+
+	TEXPECT(T_LPAR);
+	struct expr *expr = EXPR_BINARY_OP(OP_EQUAL, EXPR_INT(0), parse_assignment_expression());
+	struct constant *constant = expression_to_constant(expr);
+	if (!constant)
+		ERROR(T0->pos, "Expresison in _Static_assert must be constant.");
+
+	assert(constant->type == CONSTANT_TYPE);
+
+	if (!type_is_simple(constant->data_type, ST_INT))
+		ERROR(T0->pos, "Invalid _Static_assert type: %s\n", dbg_type(constant->data_type));
+
+	if (TACCEPT(T_COMMA)) {
+		if (T0->type != T_STRING)
+			ERROR(T0->pos, "Second argument to _Static_assert must be a string.");
+
+		struct string_view msg = T0->str;
+		TNEXT();
+
+		if (constant->uint_d)
+			ERROR(T0->pos, "Static assert failed: %.*s\n", msg.len, msg.str);
+	} else {
+		if (constant->uint_d)
+			ERROR(T0->pos, "Static assert failed.\n");
+	}
+	TEXPECT(T_RPAR);
+	TEXPECT(T_SEMI_COLON);
+
+	return 1;
+}
+
 int parse_struct(struct type_specifiers *ts) {
 	int is_union = 0, is_packed = 0;
 	if (TACCEPT(T_KSTRUCT))
@@ -367,7 +401,12 @@ int parse_struct(struct type_specifiers *ts) {
 
 		struct specifiers s;
 
-		while (parse_specifiers(&s.ts, NULL, &s.tq, NULL, &s.as)) {
+		while (1) {
+			if (parse_static_assertion())
+				continue;
+			if (!parse_specifiers(&s.ts, NULL, &s.tq, NULL, &s.as))
+				break;
+
 			int found_one = 0;
 			struct type_ast *ast = NULL;
 			int was_abstract = 1;
@@ -1412,36 +1451,7 @@ int parse_declaration(int external) {
 						  &s.tq,
 						  &s.fs,
 						  &s.as)) {
-		if (TACCEPT(T_KSTATIC_ASSERT)) {
-			TEXPECT(T_LPAR);
-			struct expr *expr = EXPR_BINARY_OP(OP_EQUAL, EXPR_INT(0), parse_assignment_expression());
-			struct constant *constant = expression_to_constant(expr);
-			if (!constant)
-				ERROR(T0->pos, "Expresison in _Static_assert must be constant.");
-
-			assert(constant->type == CONSTANT_TYPE);
-
-			if (!type_is_simple(constant->data_type, ST_INT))
-				ERROR(T0->pos, "Invalid _Static_assert type: %s\n", dbg_type(constant->data_type));
-
-			if (TACCEPT(T_COMMA)) {
-				if (T0->type != T_STRING)
-					ERROR(T0->pos, "Second argument to _Static_assert must be a string.");
-
-				struct string_view msg = T0->str;
-				TNEXT();
-
-				if (constant->uint_d)
-					ERROR(T0->pos, "Static assert failed: %.*s\n", msg.len, msg.str);
-			} else {
-				if (constant->uint_d)
-					ERROR(T0->pos, "Static assert failed.\n");
-			}
-			TEXPECT(T_RPAR);
-			TEXPECT(T_SEMI_COLON);
-			return 1;
-		}
-		return 0;
+		return parse_static_assertion();
 	}
 
 	int was_func = 0;
-- 
2.43.0


From 7b920ed58f68a9b817c161e08191aa101e32d4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:31 +0000
Subject: [PATCH 042/149] fix: diagnose invalid widths and types of bit-fields

---
 src/parser/declaration.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index ddf0bc8..001774b 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -439,6 +439,12 @@ int parse_struct(struct type_specifiers *ts) {
 						ERROR(T0->pos, "Bit-field must an integer");
 					assert(c->type == CONSTANT_TYPE);
 					bitfield = c->int_d;
+
+					if (!type_is_integer(type))
+						ERROR(T0->pos, "Bit-field must have an integer type");
+					if (bitfield < 0 || bitfield > (type_is_simple(type, ST_BOOL) ? 1 : 8 * calculate_size(type)) ||
+						(bitfield == 0 && !needs_bitfield))
+						ERROR(T0->pos, "Invalid width of bit-field");
 				} else if (needs_bitfield) {
 					break;
 				}
-- 
2.43.0


From 2d3935ef4754eceb322dbf6e599716c0cd399588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:31 +0000
Subject: [PATCH 043/149] fix: diagnose variable length arrays outside of
 functions

---
 src/parser/declaration.c     | 2 ++
 src/parser/function_parser.c | 1 +
 src/types.c                  | 5 +++--
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 001774b..de19d19 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1257,6 +1257,8 @@ struct type *parse_type_name(void) {
 		ERROR(T0->pos, "Type name must be abstract");
 
 	struct type *type = ast_to_type(&s.ts, &s.tq, ast, NULL, 0);
+	if (type_contains_unevaluated_vla(type) && !get_current_function_name().len)
+		ERROR(T0->pos, "Variable length array outside of function.");
 	type_evaluate_vla(type);
 	return type;
 }
diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index c0a3e8c..678d17c 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -563,4 +563,5 @@ void parse_function(struct string_view name, struct type *type, int arg_n, struc
 	}
 	
 	symbols_pop_scope();
+	current_function = (struct string_view) { 0 };
 }
diff --git a/src/types.c b/src/types.c
index c573260..463caee 100644
--- a/src/types.c
+++ b/src/types.c
@@ -423,11 +423,12 @@ void type_evaluate_vla(struct type *type) {
 }
 
 int type_contains_unevaluated_vla(struct type *type) {
-	for (int i = 0; i < type->n; i++)
+	// The parameters of a function are not evaluated.
+	for (int i = 0; i < type->n && !(type->type == TY_FUNCTION && i > 0); i++)
 		if (type_contains_unevaluated_vla(type->children[i]))
 			return 1;
 
-	return type->type == TY_VARIABLE_LENGTH_ARRAY && type->variable_length_array.is_evaluated;
+	return type->type == TY_VARIABLE_LENGTH_ARRAY && !type->variable_length_array.is_evaluated;
 }
 
 // See 6.2.7.
-- 
2.43.0


From 8be38108542715539bbfb37fe95db4386e57cf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:50 +0000
Subject: [PATCH 044/149] fix: do not evaluate the parameters of function
 declarations

---
 src/parser/function_parser.c | 3 ++-
 src/types.c                  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 678d17c..8a768be 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -541,7 +541,8 @@ void parse_function(struct string_view name, struct type *type, int arg_n, struc
 	struct node *func = new_function(sv_to_str(name), global);
 	abi_expr_function(func, type, args);
 
-	type_evaluate_vla(type);
+	for (int i = 0; i < type->n; i++)
+		type_evaluate_vla(type->children[i]);
 
 	struct jump_blocks jump_blocks = { 0 };
 	parse_compound_statement(&jump_blocks);
diff --git a/src/types.c b/src/types.c
index 463caee..325d9c6 100644
--- a/src/types.c
+++ b/src/types.c
@@ -411,7 +411,8 @@ struct expr *type_alignof(struct type *type) {
 }
 
 void type_evaluate_vla(struct type *type) {
-	for (int i = 0; i < type->n; i++)
+	// The parameters of a function are evaluated by its definition only.
+	for (int i = 0; i < type->n && !(type->type == TY_FUNCTION && i > 0); i++)
 		type_evaluate_vla(type->children[i]);
 
 	if (type->type == TY_VARIABLE_LENGTH_ARRAY) {
-- 
2.43.0


From ba091c590abf53a610295026666cc26973d91dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:16 +0000
Subject: [PATCH 045/149] fix: diagnose invalid alignments

---
 src/parser/declaration.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index de19d19..b5fed7e 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -202,9 +202,10 @@ static int parse_specifier(struct type_specifiers *ts,
 
 			TEXPECT(T_RPAR);
 			struct constant *constant = expression_to_constant(length_expr);
-			if (constant->type != CONSTANT_TYPE || !type_is_simple(constant->data_type, ST_ULLONG)) {
-				ERROR(T0->pos, "_Alignas must have a constant expression or type as argument. %d", constant->data_type->type);
-			}
+			if (!constant || constant->type != CONSTANT_TYPE || !type_is_simple(constant->data_type, ST_ULLONG))
+				ERROR(T0->pos, "_Alignas must have a constant expression or type as argument.");
+			if (constant->uint_d & (constant->uint_d - 1))
+				ERROR(T0->pos, "Alignment must be a power of two.");
 			as->alignment = constant->uint_d;
 			return 1;
 		}
-- 
2.43.0


From e45c7813ea4791c00ca7242c0ca88b216560b525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:41 +0000
Subject: [PATCH 046/149] fix: find the end of comments after an even number of
 asterisks

---
 src/preprocessor/tokenizer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/preprocessor/tokenizer.c b/src/preprocessor/tokenizer.c
index 89c98bc..84d6958 100644
--- a/src/preprocessor/tokenizer.c
+++ b/src/preprocessor/tokenizer.c
@@ -217,8 +217,8 @@ restart:
 			goto restart;
 
 		case '*':
+			next_char();
 			for (;;) {
-				next_char();
 				if (c == '*') {
 					next_char();
 					if (c == '/') {
@@ -227,6 +227,8 @@ restart:
 					}
 				} else if (c == EQ_NULL) {
 					ERROR(pos, "Comment reached end of file");
+				} else {
+					next_char();
 				}
 			}
 			next.whitespace = 1;
-- 
2.43.0


From e2a7d8b58b679077ea4b4f6341782d5c3152a4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:41 +0000
Subject: [PATCH 047/149] fix: accept vertical tabs and form feeds as white
 space

---
 src/preprocessor/tokenizer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/preprocessor/tokenizer.c b/src/preprocessor/tokenizer.c
index 84d6958..ef698e2 100644
--- a/src/preprocessor/tokenizer.c
+++ b/src/preprocessor/tokenizer.c
@@ -22,7 +22,7 @@ enum {
 };
 
 static char eq_table[UCHAR_MAX + 1] = {
-	1, 2,  2,  2,  2, 2,   2,  2,  2,  7,  10, 2,   2,   7,   2,   2,
+	1, 2,  2,  2,  2, 2,   2,  2,  2,  7,  10, 7,   7,   7,   2,   2,
 	2, 2,  2,  2,  2, 2,   2,  2,  2,  2,  2,  2,   2,   2,   2,   2,
 	7, 33, 34, 35, 9, 37,  38, 39, 40, 41, 42, 43,  44,  45,  46,  47,
 	5, 5,  5,  5,  5, 5,   5,  5,  56, 5,  58, 59,  60,  61,  62,  63,
-- 
2.43.0


From 48f7547b9727a8f293309be90c68a68f532799b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:42 +0000
Subject: [PATCH 048/149] fix: remove line splices ending in CRLF from tokens

---
 src/preprocessor/tokenizer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/preprocessor/tokenizer.c b/src/preprocessor/tokenizer.c
index ef698e2..34dd148 100644
--- a/src/preprocessor/tokenizer.c
+++ b/src/preprocessor/tokenizer.c
@@ -61,10 +61,12 @@ static struct string_view remove_escape_sequences(const char *initial_pos) {
 	ret_str[len] = '\0';
 
 	char *read, *write;
-	// Remove '\\n':
+	// Remove "\\\n" and "\\\r\n".
 	for (write = read = ret_str; *read; read++) {
 		if (read[0] == '\\' && read[1] == '\n')
 			read += 1;
+		else if (read[0] == '\\' && read[1] == '\r' && read[2] == '\n')
+			read += 2;
 		else
 			*write++ = *read;
 	}
-- 
2.43.0


From 797a31c941a0dfe29be7a3b440279281393bc5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:42 +0000
Subject: [PATCH 049/149] fix: do not read past the end of unterminated
 literals

---
 src/preprocessor/tokenizer.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/preprocessor/tokenizer.c b/src/preprocessor/tokenizer.c
index 34dd148..6c5af9a 100644
--- a/src/preprocessor/tokenizer.c
+++ b/src/preprocessor/tokenizer.c
@@ -151,10 +151,10 @@ static void parse_string_like(char end_char) {
 	while (c != '\n' && c != end_char && c != EQ_NULL) {
 		if (c == '\\') {
 			next_char();
-			if (c == 'u' || c == 'U') {
-				next_char();
+			if (c == 'u' || c == 'U')
 				needs_escape_sequences_removed = 1;
-			}
+			if (c == '\n' || c == EQ_NULL)
+				break;
 		}
 
 		next_char();
-- 
2.43.0


From 1b5fac049a4df452a5bfc56de33a49237d844f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:42 +0000
Subject: [PATCH 050/149] fix: do not take an escaped backslash and u for a
 universal character name

---
 src/preprocessor/tokenizer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/preprocessor/tokenizer.c b/src/preprocessor/tokenizer.c
index 6c5af9a..40ade5f 100644
--- a/src/preprocessor/tokenizer.c
+++ b/src/preprocessor/tokenizer.c
@@ -96,6 +96,11 @@ static struct string_view remove_escape_sequences(const char *initial_pos) {
 			utf8_encode(codepoint, encoded);
 			for (int i = 0; i < 4 && encoded[i]; i++)
 				*write++ = encoded[i];
+		} else if (read[0] == '\\' && read[1]) {
+			// Other escape sequences are left for later, in particular
+			// "\\u" is not a universal character name.
+			*write++ = *read++;
+			*write++ = *read;
 		} else {
 			*write++ = *read;
 		}
-- 
2.43.0


From d642dee7bc10659d7ca3ac2ef0cd41ae7298832f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:19 +0000
Subject: [PATCH 051/149] fix: tokenize two consecutive periods

---
 src/preprocessor/tokenizer.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/preprocessor/tokenizer.c b/src/preprocessor/tokenizer.c
index 40ade5f..b98e3b4 100644
--- a/src/preprocessor/tokenizer.c
+++ b/src/preprocessor/tokenizer.c
@@ -332,10 +332,19 @@ restart:
 			break;
 
 		case '.':
-			next_char();
-			if (c != '.')
-				ERROR(pos, "Invalid token");
-			TYPE(T_ELLIPSIS);
+			if (str[0] == '.' || str[0] == '\\') {
+				// Restore the state if there is no third '.'.
+				const char *second_str = str;
+				struct position second_pos = pos;
+				next_char();
+				if (c == '.') {
+					TYPE(T_ELLIPSIS);
+				} else {
+					c = '.';
+					str = second_str;
+					pos = second_pos;
+				}
+			}
 			break;
 		}
 		break;
-- 
2.43.0


From db286ac23308328aa955ab38ee19f87a642995b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:20 +0000
Subject: [PATCH 052/149] fix: only accept backslashes in identifiers as part
 of universal character names

---
 src/preprocessor/tokenizer.c | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/preprocessor/tokenizer.c b/src/preprocessor/tokenizer.c
index b98e3b4..ed565e6 100644
--- a/src/preprocessor/tokenizer.c
+++ b/src/preprocessor/tokenizer.c
@@ -171,17 +171,28 @@ static void parse_string_like(char end_char) {
 	next_char();
 }
 
+// Is there a universal character name at the current '\'?
+static int is_universal_character_name(void) {
+	char old_c = c;
+	const char *old_str = str;
+	struct position old_pos = pos;
+	next_char();
+	int ret = c == 'u' || c == 'U';
+	c = old_c;
+	str = old_str;
+	pos = old_pos;
+	return ret;
+}
+
 static void parse_identifier(void) {
 	for (;;) {
 		if (c == EQ_ALPHA || c == 'u' || c == 'U' || c == EQ_EXPONENT ||
 		    c == 'L' || c == EQ_DECIMAL || c == '8' || c == EQ_UTF8) {
 			next_char();
-		} else if (c == '\\') {
+		} else if (c == '\\' && is_universal_character_name()) {
 			next_char();
-			if (c == 'u' || c == 'U') {
-				next_char();
-				needs_escape_sequences_removed = 1;
-			}
+			next_char();
+			needs_escape_sequences_removed = 1;
 		} else {
 			break;
 		}
@@ -315,6 +326,13 @@ restart:
 		parse_identifier();
 		break;
 
+	case '\\':
+		if (!is_universal_character_name())
+			ERROR(next.pos, "Invalid token");
+		parse_identifier();
+		next.type = T_IDENT;
+		break;
+
 	case '8':
 	case EQ_DECIMAL:
 		TYPE(T_NUM);
-- 
2.43.0


From 5470e4af26e3c327e99481c7714b47cf87e5538a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:20 +0000
Subject: [PATCH 053/149] fix: accept any character as a preprocessing token

---
 src/preprocessor/tokenizer.c | 12 +++++++-----
 src/preprocessor/tokens.h    |  1 +
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/preprocessor/tokenizer.c b/src/preprocessor/tokenizer.c
index ed565e6..d247502 100644
--- a/src/preprocessor/tokenizer.c
+++ b/src/preprocessor/tokenizer.c
@@ -327,10 +327,12 @@ restart:
 		break;
 
 	case '\\':
-		if (!is_universal_character_name())
-			ERROR(next.pos, "Invalid token");
-		parse_identifier();
-		next.type = T_IDENT;
+		if (is_universal_character_name()) {
+			parse_identifier();
+			next.type = T_IDENT;
+		} else {
+			TYPE(PP_OTHER);
+		}
 		break;
 
 	case '8':
@@ -498,7 +500,7 @@ restart:
 		next.type = T_EOI;
 		break;
 
-	default: ERROR(next.pos, "Invalid token");
+	default: TYPE(PP_OTHER); break;
 	}
 
 	next.str = (struct string_view){
diff --git a/src/preprocessor/tokens.h b/src/preprocessor/tokens.h
index aa223d6..4677a64 100644
--- a/src/preprocessor/tokens.h
+++ b/src/preprocessor/tokens.h
@@ -8,6 +8,7 @@ X(PP_HEADER_NAME_Q, "Header name")
 X(PP_HASH, "#")
 X(PP_HHASH, "##")
 X(PP_DIRECTIVE, "#")
+X(PP_OTHER, "Invalid character")
 
 // Conditional tokens.
 X(COND_IF, "Conditional")
-- 
2.43.0


From cea4e21ff14ee3af84f68f35bfaf7e648a38f2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:20 +0000
Subject: [PATCH 054/149] fix: diagnose invalid universal character names

---
 src/preprocessor/tokenizer.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/preprocessor/tokenizer.c b/src/preprocessor/tokenizer.c
index d247502..a7c24d2 100644
--- a/src/preprocessor/tokenizer.c
+++ b/src/preprocessor/tokenizer.c
@@ -92,6 +92,14 @@ static struct string_view remove_escape_sequences(const char *initial_pos) {
 					      initial_pos);
 			}
 
+			// 6.4.3 constraints.
+			if ((codepoint < 0xa0 && codepoint != '$' && codepoint != '@' &&
+			     codepoint != '`') ||
+			    (codepoint >= 0xd800 && codepoint <= 0xdfff) ||
+			    codepoint > 0x10ffff)
+				ERROR(pos, "Invalid universal character name in %.*s", len,
+				      initial_pos);
+
 			char encoded[4];
 			utf8_encode(codepoint, encoded);
 			for (int i = 0; i < 4 && encoded[i]; i++)
-- 
2.43.0


From 60ffc26608b19629ba1fda8ecf6de798e329fbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:22 +0000
Subject: [PATCH 055/149] fix: diagnose missing operands of prefix operators

---
 src/parser/expression.c | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 3d70998..e175a72 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -518,6 +518,13 @@ static void parse_call_parameters(struct expr ***args, int *n_args) {
 struct expr *parse_pratt(int precedence);
 struct expr *parse_pratt_with_lhs(int precedence, struct expr *lhs);
 
+static struct expr *parse_operand(void) {
+	struct expr *expr = parse_pratt(PREFIX_PREC);
+	if (!expr)
+		ERROR(T0->pos, "Expected expression, got %s", dbg_token(T0));
+	return expr;
+}
+
 static struct expr *parse_prefix(void) {
 	if (TACCEPT(T_LPAR)) {
 		struct type *cast_type = parse_type_name();
@@ -531,9 +538,7 @@ static struct expr *parse_prefix(void) {
 						.compound_literal = { cast_type, init }
 					});
 			} else {
-				struct expr *rhs = parse_pratt(PREFIX_PREC);
-				if (!rhs)
-					ERROR(T0->pos, "Expected expression");
+				struct expr *rhs = parse_operand();
 				return expression_cast(rhs, cast_type);
 			}
 		} else {
@@ -542,25 +547,25 @@ static struct expr *parse_prefix(void) {
 			return expr;
 		}
 	} else if (TACCEPT(T_INC)) {
- 		return EXPR_ASSIGNMENT_OP(OP_ADD, parse_pratt(PREFIX_PREC), EXPR_INT(1), 0);
+ 		return EXPR_ASSIGNMENT_OP(OP_ADD, parse_operand(), EXPR_INT(1), 0);
 	} else if (TACCEPT(T_DEC)) {
- 		return EXPR_ASSIGNMENT_OP(OP_SUB, parse_pratt(PREFIX_PREC), EXPR_INT(1), 0);
+ 		return EXPR_ASSIGNMENT_OP(OP_SUB, parse_operand(), EXPR_INT(1), 0);
  	} else if (TACCEPT(T_STAR)) {
- 		return EXPR_ARGS(E_INDIRECTION, parse_pratt(PREFIX_PREC));
+ 		return EXPR_ARGS(E_INDIRECTION, parse_operand());
 	} else if (TACCEPT(T_ADD)) {
-		return EXPR_UNARY_OP(UOP_PLUS, parse_pratt(PREFIX_PREC));
+		return EXPR_UNARY_OP(UOP_PLUS, parse_operand());
 	} else if (TACCEPT(T_SUB)) {
-		return EXPR_UNARY_OP(UOP_NEG, parse_pratt(PREFIX_PREC));
+		return EXPR_UNARY_OP(UOP_NEG, parse_operand());
 	} else if (TACCEPT(T_NOT)) {
-		struct expr *rhs = parse_pratt(PREFIX_PREC);
+		struct expr *rhs = parse_operand();
 		return EXPR_ARGS(E_CONDITIONAL, rhs,
 						 EXPR_INT(0),
 						 EXPR_INT(1));
 	} else if (TACCEPT(T_BNOT)) {
-		return EXPR_UNARY_OP(UOP_BNOT, parse_pratt(PREFIX_PREC));
+		return EXPR_UNARY_OP(UOP_BNOT, parse_operand());
 	} else if (TACCEPT(T_AMP)) {
 		struct position pos = T0->pos;
-		struct expr *rhs = parse_pratt(PREFIX_PREC);
+		struct expr *rhs = parse_operand();
 		if ((rhs->type == E_VARIABLE && rhs->variable.is_register) ||
 			(rhs->type == E_SYMBOL && rhs->symbol->is_register))
 			ERROR(pos, "Taking address of register variable is not allowed.");
@@ -582,10 +587,10 @@ static struct expr *parse_prefix(void) {
 				}
 			} else {
 				t_push(t);
-				type = parse_pratt(PREFIX_PREC)->data_type;
+				type = parse_operand()->data_type;
 			} 
 		} else {
-			type = parse_pratt(PREFIX_PREC)->data_type;
+			type = parse_operand()->data_type;
 		}
 
 		return type_sizeof(type);
@@ -598,10 +603,10 @@ static struct expr *parse_prefix(void) {
 				TEXPECT(T_RPAR);
 			} else {
 				t_push(t);
-				type = parse_pratt(PREFIX_PREC)->data_type;
+				type = parse_operand()->data_type;
 			}
 		} else {
-			type = parse_pratt(PREFIX_PREC)->data_type;
+			type = parse_operand()->data_type;
 		}
 
 		return type_alignof(type);
-- 
2.43.0


From 5a668329e0f2a13a88a62dc2bcc3f164eaaa9e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:22 +0000
Subject: [PATCH 056/149] fix: diagnose calls of objects that are not functions

---
 src/parser/expression.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index e175a72..f57356e 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -441,7 +441,10 @@ struct expr *expr_new(struct expr expr) {
 	}
 
 	if (expr.type == E_CALL) {
-		assert(type_is_pointer(expr.call.callee->data_type));
+		if (!type_is_pointer(expr.call.callee->data_type) ||
+			type_deref(expr.call.callee->data_type)->type != TY_FUNCTION)
+			ERROR(T0->pos, "Called object is not a function, it has type %s",
+				  dbg_type(expr.call.callee->data_type));
 		struct type *signature = type_deref(expr.call.callee->data_type);
 
 		int named_arguments_count = signature->n - 1;
-- 
2.43.0


From 8ebcff8fb89b6ef18ea80d455a827e6febcb7ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:30 +0000
Subject: [PATCH 057/149] fix: diagnose assignments to and addresses of
 expressions that are not lvalues

---
 src/parser/expression.c | 43 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index f57356e..a11e36f 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -396,6 +396,47 @@ static void check_const_correctness(struct expr *expr) {
 	}
 }
 
+static int is_lvalue(struct expr *expr) {
+	switch (expr->type) {
+	case E_SYMBOL:
+	case E_VARIABLE:
+	case E_INDIRECTION:
+	case E_COMPOUND_LITERAL:
+		return 1;
+
+	case E_CONSTANT: // String literals, among others.
+		return expr->constant.type == CONSTANT_LABEL;
+
+	case E_DOT_OPERATOR:
+		return is_lvalue(expr->member.lhs);
+
+	default:
+		return 0;
+	}
+}
+
+// See 6.3.2.1, 6.5.2.4, 6.5.3.1, 6.5.3.2, and 6.5.16.
+static void check_lvalue(struct expr *expr) {
+	switch (expr->type) {
+	case E_ASSIGNMENT:
+	case E_ASSIGNMENT_OP: {
+		struct type *type = expr->args[0]->data_type;
+		if (!is_lvalue(expr->args[0]) || type->type == TY_FUNCTION ||
+			type->type == TY_ARRAY || type->type == TY_INCOMPLETE_ARRAY ||
+			type->type == TY_VARIABLE_LENGTH_ARRAY)
+			ERROR(T0->pos, "Can't assign to an expression that is not a modifiable lvalue.");
+	} break;
+
+	case E_ADDRESS_OF:
+		if (!is_lvalue(expr->args[0]))
+			ERROR(T0->pos, "Can't take the address of an expression that is not an lvalue.");
+		break;
+
+	default:
+		break;
+	}
+}
+
 static struct expr *expr_dot_operator(struct expr *lhs, struct token *name) {
 	int n = 0, *indices;
 	if (!type_search_member(lhs->data_type, name->str, &n, &indices))
@@ -417,6 +458,8 @@ struct expr *expr_new(struct expr expr) {
 			ICE("Wrongly constructed expression of type %d", expr.type);
 	}
 
+	check_lvalue(&expr);
+
 	for (int i = dont_decay_ptr[expr.type];
 		 i < num_args[expr.type]; i++) {
 		decay_array(&expr.args[i]);
-- 
2.43.0


From c5164e65b528f7d5cf3f5c8edd24447a47ccbe1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:47 +0000
Subject: [PATCH 058/149] fix: compound literals are lvalues

---
 src/parser/expression_to_ir.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index ff8146e..8e6ea51 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -435,6 +435,7 @@ static struct evaluated_expression evaluate_compound_literal(struct expr *expr)
 
 	return (struct evaluated_expression) {
 		.type = EE_POINTER,
+		.is_lvalue = 1,
 		.pointer = address,
 	};
 }
-- 
2.43.0


From 55dcf6cb154f2e444464789e0882a15c9927e55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:28 +0000
Subject: [PATCH 059/149] fix: diagnose hexadecimal escape sequences without
 digits

---
 src/escape_sequence.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/escape_sequence.c b/src/escape_sequence.c
index dc9911f..c4c2e3d 100644
--- a/src/escape_sequence.c
+++ b/src/escape_sequence.c
@@ -23,6 +23,8 @@ int escape_sequence_read(uint32_t *out, const char **start, int n) {
 		*out = result;
 	} else if (*s == 'x') {
 		s++;
+		if (!is_hexadecimal(*s))
+			ICE("Expected hexadecimal digits in escape sequence");
 		uint32_t result = 0;
 		for (int i = 0; i < n && is_hexadecimal(*s); i++, s++) {
 			result *= 16;
-- 
2.43.0


From 30e7c216c0c3100b068a0ba9e82d598955bac0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:28 +0000
Subject: [PATCH 060/149] fix: diagnose escape sequences out of range

---
 src/escape_sequence.c            | 2 ++
 src/preprocessor/string_concat.c | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/src/escape_sequence.c b/src/escape_sequence.c
index c4c2e3d..8fab834 100644
--- a/src/escape_sequence.c
+++ b/src/escape_sequence.c
@@ -27,6 +27,8 @@ int escape_sequence_read(uint32_t *out, const char **start, int n) {
 			ICE("Expected hexadecimal digits in escape sequence");
 		uint32_t result = 0;
 		for (int i = 0; i < n && is_hexadecimal(*s); i++, s++) {
+			if (result >> 28)
+				ICE("Escape sequence out of range");
 			result *= 16;
 			result += char_to_int(*s);
 		}
diff --git a/src/preprocessor/string_concat.c b/src/preprocessor/string_concat.c
index bb7a3c5..9b5dc72 100644
--- a/src/preprocessor/string_concat.c
+++ b/src/preprocessor/string_concat.c
@@ -63,6 +63,11 @@ static int escape_char_to_buffer(struct string_view *input,
 	const char *advance = input->str;
 	if (escape_sequence_read(&character, &advance, input->len)) {
 		sv_tail(input, advance - input->str);
+
+		// The value must be representable in the type, 6.4.4.4.
+		if (((type == STRING_DEFAULT || type == STRING_U8) && character > 0xff) ||
+			(type == STRING_U_SMALL && character > 0xffff))
+			ICE("Escape sequence out of range");
 	} else {
 		if (type == STRING_L || type == STRING_U_LARGE ||
 			type == STRING_U_SMALL) {
-- 
2.43.0


From 9bda094cdf04a6580eb9feb971201019c2e8bf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:29 +0000
Subject: [PATCH 061/149] fix: encode char16_t strings as UTF-16

---
 src/preprocessor/string_concat.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/preprocessor/string_concat.c b/src/preprocessor/string_concat.c
index 9b5dc72..d750c28 100644
--- a/src/preprocessor/string_concat.c
+++ b/src/preprocessor/string_concat.c
@@ -92,6 +92,13 @@ static int escape_char_to_buffer(struct string_view *input,
 		buffer_write((character >> 24) & 0xff);
 		break;
 	case STRING_U_SMALL:
+		if (character > 0xffff) {
+			// UTF-16 surrogate pair.
+			uint32_t high = 0xd800 | (((character - 0x10000) >> 10) & 0x3ff);
+			buffer_write(high & 0xff);
+			buffer_write((high >> 8) & 0xff);
+			character = 0xdc00 | (character & 0x3ff);
+		}
 		buffer_write(character & 0xff);
 		buffer_write((character >> 8) & 0xff);
 		break;
-- 
2.43.0


From a999ab03a6518d12fd282359af20dc12b35d4514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:29 +0000
Subject: [PATCH 062/149] fix: char32_t character constants are unsigned

---
 src/common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common.c b/src/common.c
index 7b9cfcc..a973b21 100644
--- a/src/common.c
+++ b/src/common.c
@@ -88,7 +88,7 @@ intmax_t character_constant_char16_to_int(struct string_view str) {
 }
 
 intmax_t character_constant_char32_to_int(struct string_view str) {
-	return character_constant_wchar_to_int(str);
+	return (uint32_t)character_constant_wchar_to_int(str);
 }
 
 uint64_t gen_mask(unsigned char left_pad, unsigned char right_pad) {
-- 
2.43.0


From 4293a1ac4223c2e623702b3542779ec0389beb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:29 +0000
Subject: [PATCH 063/149] fix: size of the character property table

---
 src/character_types.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/character_types.c b/src/character_types.c
index 9835ee7..f694cf5 100644
--- a/src/character_types.c
+++ b/src/character_types.c
@@ -10,7 +10,7 @@ enum {
 	C_IDENTIFIER_NONDIGIT = 0x20,
 };
 
-static const unsigned char char_props[UCHAR_MAX] = {
+static const unsigned char char_props[UCHAR_MAX + 1] = {
 	['\t'] = 0x10, 0x10, 0x10, 0x10,
 	[' '] = 0x10, ['$'] = 0x20,
 	['_'] = 0x20,
-- 
2.43.0


From 768949266ded61d246fbcdbb1f4e29f1754a0cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:29 +0000
Subject: [PATCH 064/149] fix: size of the escape sequence tables

---
 src/escape_sequence.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/escape_sequence.c b/src/escape_sequence.c
index 8fab834..e0a4e6a 100644
--- a/src/escape_sequence.c
+++ b/src/escape_sequence.c
@@ -57,7 +57,7 @@ int escape_sequence_read(uint32_t *out, const char **start, int n) {
 	return 1;
 }
 
-static const unsigned char needs_no_escape[CHAR_MAX] = {
+static const unsigned char needs_no_escape[CHAR_MAX + 1] = {
 	['A'] = 1, ['B'] = 1, ['C'] = 1, ['D'] = 1, ['E'] = 1,
 	['F'] = 1, ['G'] = 1, ['H'] = 1, ['I'] = 1, ['J'] = 1,
 	['K'] = 1, ['L'] = 1, ['M'] = 1, ['N'] = 1, ['O'] = 1,
@@ -78,7 +78,7 @@ static const unsigned char needs_no_escape[CHAR_MAX] = {
 	['}'] = 1, ['~'] = 1, [' '] = 1,
 };
 
-static const unsigned char has_simple_escape[CHAR_MAX] = {
+static const unsigned char has_simple_escape[CHAR_MAX + 1] = {
 	['\n'] = 'n',
 	['\t'] = 't',
 	['\"'] = '\"',
@@ -88,7 +88,7 @@ static const unsigned char has_simple_escape[CHAR_MAX] = {
 
 // Some assemblers don't support escape codes like \a,
 // these are here referred to as "complicated".
-static const unsigned char has_complicated_escape[CHAR_MAX] = {
+static const unsigned char has_complicated_escape[CHAR_MAX + 1] = {
 	['?'] = '?',
 	['\a'] = 'a',
 	['\b'] = 'b',
-- 
2.43.0


From 36da180215b1a26bb36c4206885d68514c6587cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:28 +0000
Subject: [PATCH 065/149] fix: diagnose empty character constants

---
 src/preprocessor/string_concat.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/preprocessor/string_concat.c b/src/preprocessor/string_concat.c
index d750c28..dc865c8 100644
--- a/src/preprocessor/string_concat.c
+++ b/src/preprocessor/string_concat.c
@@ -225,6 +225,8 @@ struct token string_concat_next(void) {
 
 		buffer_start();
 		escape_string_to_buffer(t.str, type);
+		if (!buffer_size)
+			ERROR(t.pos, "Empty character constant");
 		t.str = buffer_get();
 
 		switch (type) {
@@ -251,6 +253,8 @@ intmax_t escaped_character_constant_to_int(struct token t) {
 	enum string_type type = take_string_prefix(&t.str);
 	buffer_start();
 	escape_string_to_buffer(t.str, type);
+	if (!buffer_size)
+		ERROR(t.pos, "Empty character constant");
 
 	// No need to call buffer_get(), since we do not need
 	// a permanent string_view.
-- 
2.43.0


From dc0f963a32314852d449673ca0925e7c08c0865a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:50 +0000
Subject: [PATCH 066/149] fix: bitwise complement in preprocessor expressions

---
 src/preprocessor/directives.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index 6610027..8ce09dd 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -236,6 +236,9 @@ static struct result evaluate_expression(int prec, int evaluate) {
 	} else if (t.type == T_SUB) {
 		struct result rhs = evaluate_expression(PREFIX_PREC, evaluate);
 		expr = RESULT_UNARY(-, rhs);
+	} else if (t.type == T_BNOT) {
+		struct result rhs = evaluate_expression(PREFIX_PREC, evaluate);
+		expr = RESULT_UNARY(~, rhs);
 	} else if (t.type == T_NOT) {
 		struct result rhs = evaluate_expression(PREFIX_PREC, evaluate);
 		expr = RESULT_UNARY(!, rhs);
-- 
2.43.0


From abdfab4689d4d5487526804361d8f8a4b90cabee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:50 +0000
Subject: [PATCH 067/149] fix: logical negation in preprocessor expressions is
 signed

---
 src/preprocessor/directives.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index 8ce09dd..32f9c08 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -241,7 +241,7 @@ static struct result evaluate_expression(int prec, int evaluate) {
 		expr = RESULT_UNARY(~, rhs);
 	} else if (t.type == T_NOT) {
 		struct result rhs = evaluate_expression(PREFIX_PREC, evaluate);
-		expr = RESULT_UNARY(!, rhs);
+		expr = result_signed(result_is_zero(rhs));
 	} else if (t.type == T_LPAR) {
 		expr = evaluate_expression(0, evaluate);
 		struct token rpar = buffer_next();
-- 
2.43.0


From beefcff6361b61346ee9d21e5176d8597f7819c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:50 +0000
Subject: [PATCH 068/149] fix: operands of shifts in preprocessor expressions
 are not converted

---
 src/preprocessor/directives.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index 32f9c08..96bdd01 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -286,7 +286,10 @@ static struct result evaluate_expression(int prec, int evaluate) {
 			struct result rhs = evaluate_expression(new_prec, evaluate);
 
 			// Integer -> Unsigned integer promotion.
-			if (rhs.is_signed && !expr.is_signed)
+			// The operands of shifts are not converted.
+			if (t.type == T_LSHIFT || t.type == T_RSHIFT)
+				;
+			else if (rhs.is_signed && !expr.is_signed)
 				rhs = result_unsigned(rhs.i);
 			else if (!rhs.is_signed && expr.is_signed)
 				expr = result_unsigned(expr.i);
-- 
2.43.0


From d99d4d5273c8f284842f3f01300bddec61b8eff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:51 +0000
Subject: [PATCH 069/149] fix: type of conditional operators in preprocessor
 expressions

---
 src/preprocessor/directives.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index 96bdd01..be398dd 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -275,6 +275,8 @@ static struct result evaluate_expression(int prec, int evaluate) {
 			assert(colon.type == T_COLON);
 			struct result rhs = evaluate_expression(new_prec, result_is_zero(expr) ? evaluate : 0);
 			expr = !result_is_zero(expr) ? mid : rhs;
+			if (!mid.is_signed || !rhs.is_signed)
+				expr = result_unsigned(expr.i);
 		} else if (t.type == T_AND) {
 			struct result rhs = evaluate_expression(new_prec, !result_is_zero(expr) ? evaluate : 0);
 			expr = result_signed(!result_is_zero(expr) && !result_is_zero(rhs));
-- 
2.43.0


From 550451dd771090d117eba2a7ccfc58ed67d468c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:51 +0000
Subject: [PATCH 070/149] fix: type of unevaluated comparisons in preprocessor
 expressions

---
 src/preprocessor/directives.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index be398dd..f03b264 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -323,6 +323,9 @@ static struct result evaluate_expression(int prec, int evaluate) {
 				default:
 					ERROR(t.pos, "Invalid infix %s", dbg_token(&t));
 				}
+			} else if (t.type == T_EQ || t.type == T_NEQ || t.type == T_LEQ ||
+					   t.type == T_GEQ || t.type == T_L || t.type == T_G) {
+				expr = result_signed(0);
 			}
 		}
 
-- 
2.43.0


From 46f16f532ff92fd30ad8e9aad4ea109610436315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:51 +0000
Subject: [PATCH 071/149] fix: type of integer constants in preprocessor
 expressions

---
 src/preprocessor/directives.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index f03b264..ad80df1 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -254,10 +254,17 @@ static struct result evaluate_expression(int prec, int evaluate) {
 			ERROR(t.pos, "Floating point arithmetic in the preprocessor is not allowed.");
 		if (!type_is_integer(c.data_type))
 			ERROR(t.pos, "Preprocessor variables must be of integer type.");
-		if (is_signed(c.data_type->simple))
-			expr = result_signed(c.int_d);
-		else
+
+		// All integer types act as intmax_t or uintmax_t, see 6.10.1.
+		int has_unsigned_suffix = 0;
+		for (int i = 0; i < t.str.len; i++)
+			if (t.str.str[i] == 'u' || t.str.str[i] == 'U')
+				has_unsigned_suffix = 1;
+
+		if (has_unsigned_suffix || c.uint_d > INTMAX_MAX)
 			expr = result_unsigned(c.uint_d);
+		else
+			expr = result_signed(c.uint_d);
 	} else if (t.type == T_CHARACTER_CONSTANT) {
 		expr = result_signed(escaped_character_constant_to_int(t));
 	} else {
-- 
2.43.0


From 4b753d2ae16adbe8704a86ef4ba33cc3aa9da22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:51 +0000
Subject: [PATCH 072/149] fix: diagnose a missing colon in preprocessor
 expressions

---
 src/preprocessor/directives.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index ad80df1..9217742 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -279,7 +279,8 @@ static struct result evaluate_expression(int prec, int evaluate) {
 		if (t.type == T_QUEST) {
 			struct result mid = evaluate_expression(0, !result_is_zero(expr) ? evaluate : 0);
 			struct token colon = buffer_next();
-			assert(colon.type == T_COLON);
+			if (colon.type != T_COLON)
+				ERROR(colon.pos, "Expected :, got %s", dbg_token_type(colon.type));
 			struct result rhs = evaluate_expression(new_prec, result_is_zero(expr) ? evaluate : 0);
 			expr = !result_is_zero(expr) ? mid : rhs;
 			if (!mid.is_signed || !rhs.is_signed)
-- 
2.43.0


From 5c59ff5eae672b0f02970a1abea77c130f9b6089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:52 +0000
Subject: [PATCH 073/149] fix: diagnose trailing tokens in preprocessor
 expressions

---
 src/preprocessor/directives.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index 9217742..6c65d79 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -376,10 +376,16 @@ static struct result evaluate_until_newline(void) {
 	push(t);
 
 	expand_token_list(&buffer);
-	token_list_add(&buffer, (struct token) { .type = T_EOI });
+	token_list_add(&buffer, (struct token) { .type = T_EOI, .pos = t.pos });
 
 	buffer_pos = 0;
-	return evaluate_expression(0, 1);
+	struct result result = evaluate_expression(0, 1);
+
+	struct token end = buffer_next();
+	if (end.type != T_EOI)
+		ERROR(end.pos, "Unexpected token in preprocessor expression. %s", dbg_token(&end));
+
+	return result;
 }
 
 static struct string_view get_include_path(struct token dir, struct token t, int *system) {
-- 
2.43.0


From 151eab77bee3e1946c92d842e62325532f1911b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:52 +0000
Subject: [PATCH 074/149] fix: end the last line of a file without a newline

---
 src/preprocessor/directives.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index 6c65d79..0622c2e 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -99,7 +99,7 @@ static struct token next_from_stack(void) {
 			return next();
 		}
 
-		return (struct token ) { .type = T_EOI };
+		return (struct token ) { .type = T_EOI, .first_of_line = 1 };
 	}
 
 	return current_file->tokens.list[current_file->token_idx++];
-- 
2.43.0


From 850e5d2c74f65815d26f69c4f8a90f0c50e73bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:52 +0000
Subject: [PATCH 075/149] fix: diagnose defined without an identifier

---
 src/preprocessor/directives.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index 0622c2e..2d9549b 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -357,6 +357,8 @@ static struct result evaluate_until_newline(void) {
 			if (has_lpar)
 				t = next();
 
+			EXPECT(&t, T_IDENT);
+
 			int is_defined = define_map_get(t.str) != NULL;
 			token_list_add(&buffer, (struct token) {.type = T_NUM, .str = is_defined ? sv_from_str("1") :
 					sv_from_str("0")});
-- 
2.43.0


From d0885e8e29e8ed90b62e1d9dcc413a99f3d182f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:52 +0000
Subject: [PATCH 076/149] fix: diagnose invalid directive names

---
 src/preprocessor/directives.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index 2d9549b..50a1d37 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -542,7 +542,8 @@ struct token directiver_next(void) {
 
 		struct string_view name = directive.str;
 
-		assert(directive.type == T_IDENT);
+		if (directive.type != T_IDENT)
+			ERROR(directive.pos, "Invalid directive, got %s", dbg_token(&directive));
 
 		if (sv_string_cmp(name, "ifndef") ||
 			sv_string_cmp(name, "ifdef") ||
-- 
2.43.0


From 4c736fe569c23fb09127a71fea4e85f1e8bdabb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:20 +0000
Subject: [PATCH 077/149] fix: diagnose unbalanced conditional directives

---
 src/preprocessor/directives.c | 65 ++++++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 21 deletions(-)

diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index 50a1d37..0eeb82a 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -18,8 +18,18 @@ struct tokenized_file {
 
 	const char *path;
 	struct tokenized_file *parent;
+
+	int cond_base; // Number of open conditionals when the file was included.
+};
+
+struct conditional {
+	int state; // 1: active, 0: not yet active, -1: no longer active.
+	int seen_else;
 };
 
+static int cond_stack_n = 0, cond_stack_cap = 0;
+static struct conditional *cond_stack = NULL;
+
 static struct tokenized_file *current_file;
 
 static const char *new_path = NULL;
@@ -59,6 +69,7 @@ void directiver_reset(void) {
 	new_path = NULL;
 	line_diff = 0;
 	current_file = NULL;
+	cond_stack_n = 0;
 
 	macro_stack_size = macro_stack_cap = 0;
 	free(macro_stacks);
@@ -86,6 +97,7 @@ void directiver_push_input(const char *path, int system) {
 			.token_idx = 0,
 			.tokens = tokenize_input(new_input.contents, new_input.path),
 			.path = strdup(new_input.path),
+			.cond_base = cond_stack_n,
 		});
 }
 
@@ -93,6 +105,10 @@ static struct token next(void);
 
 static struct token next_from_stack(void) {
 	if (current_file->token_idx == current_file->tokens.size) {
+		if (cond_stack_n > current_file->cond_base)
+			ERROR(((struct position) { .path = current_file->path }),
+				  "Unterminated conditional directive");
+
 		if (current_file->parent) {
 			token_list_free(&current_file->tokens);
 			current_file = current_file->parent;
@@ -512,16 +528,21 @@ static int directiver_handle_pragma(void) {
 	return 0;
 }
 
-struct token directiver_next(void) {
-	static int cond_stack_n = 0, cond_stack_cap = 0;
-	static int *cond_stack = NULL;
+static int is_active(void) {
+	return cond_stack_n == 0 || cond_stack[cond_stack_n - 1].state == 1;
+}
 
-	if (cond_stack_n == 0)
-		ADD_ELEMENT(cond_stack_n, cond_stack_cap, cond_stack) = 1;
+// The innermost conditional, it must have been opened in the current file.
+static struct conditional *current_conditional(struct token directive) {
+	if (cond_stack_n <= current_file->cond_base)
+		ERROR(directive.pos, "#%.*s without #if", directive.str.len, directive.str.str);
+	return &cond_stack[cond_stack_n - 1];
+}
 
+struct token directiver_next(void) {
 	struct token t = next();
 	int pass_directive = 0;
-	while ((t.type == PP_DIRECTIVE || cond_stack[cond_stack_n - 1] != 1) &&
+	while ((t.type == PP_DIRECTIVE || !is_active()) &&
 		!pass_directive) {
 		if (t.type != PP_DIRECTIVE) {
 			t = next();
@@ -534,8 +555,7 @@ struct token directiver_next(void) {
 			continue;
 		}
 
-		if (directive.type != T_IDENT &&
-			cond_stack[cond_stack_n - 1] != 1) {
+		if (directive.type != T_IDENT && !is_active()) {
 			t = directive;
 			continue;
 		}
@@ -548,25 +568,28 @@ struct token directiver_next(void) {
 		if (sv_string_cmp(name, "ifndef") ||
 			sv_string_cmp(name, "ifdef") ||
 			sv_string_cmp(name, "if")) {
-			if (cond_stack[cond_stack_n - 1] == 1) {
-				int result = directiver_evaluate_conditional(directive);
-				ADD_ELEMENT(cond_stack_n, cond_stack_cap, cond_stack) = result ? 1 : 0;
-			} else {
-				ADD_ELEMENT(cond_stack_n, cond_stack_cap, cond_stack) = -1;
-			}
+			int state = -1;
+			if (is_active())
+				state = directiver_evaluate_conditional(directive);
+			ADD_ELEMENT(cond_stack_n, cond_stack_cap, cond_stack) =
+				(struct conditional) { .state = state };
 		} else if (sv_string_cmp(name, "elif") ||
 				   sv_string_cmp(name, "else") ||
 				   sv_string_cmp(name, "elifndef") ||
 				   sv_string_cmp(name, "elifdef")) {
-			if (cond_stack[cond_stack_n - 1] == 0) {
-				int result = directiver_evaluate_conditional(directive);
-				cond_stack[cond_stack_n - 1] = result;
-			} else {
-				cond_stack[cond_stack_n - 1] = -1;
-			}
+			struct conditional *cond = current_conditional(directive);
+			if (cond->seen_else)
+				ERROR(directive.pos, "#%.*s after #else", name.len, name.str);
+			cond->seen_else = sv_string_cmp(name, "else");
+
+			if (cond->state == 0)
+				cond->state = directiver_evaluate_conditional(directive);
+			else
+				cond->state = -1;
 		} else if (sv_string_cmp(name, "endif")) {
+			current_conditional(directive);
 			cond_stack_n--;
-		} else if (cond_stack[cond_stack_n - 1] == 1) {
+		} else if (is_active()) {
 			if (sv_string_cmp(name, "define")) {
 				directiver_define();
 			} else if (sv_string_cmp(name, "undef")) {
-- 
2.43.0


From 505ec15926e3130521ab530e1ed08a672b1d90f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:47 +0000
Subject: [PATCH 078/149] fix: diagnose missing macro names

---
 src/preprocessor/directives.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index 0eeb82a..81b870e 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -141,8 +141,15 @@ static struct token next(void) {
 	return t;
 }
 
-static void directiver_define(void) {
+static struct token next_macro_name(void) {
 	struct token name = next();
+	if (name.first_of_line || name.type != T_IDENT)
+		ERROR(name.pos, "Expected a macro name");
+	return name;
+}
+
+static void directiver_define(void) {
+	struct token name = next_macro_name();
 
 	struct define def = define_init(name.str);
 
@@ -432,10 +439,10 @@ static struct string_view get_include_path(struct token dir, struct token t, int
 static int directiver_evaluate_conditional(struct token dir) {
 	if (sv_string_cmp(dir.str, "ifdef") ||
 		sv_string_cmp(dir.str, "elifdef")) {
-		return (define_map_get(next().str) != NULL);
+		return (define_map_get(next_macro_name().str) != NULL);
 	} else if (sv_string_cmp(dir.str, "ifndef") ||
 			   sv_string_cmp(dir.str, "elifndef")) {
-		return !(define_map_get(next().str) != NULL);
+		return !(define_map_get(next_macro_name().str) != NULL);
 	} else if (sv_string_cmp(dir.str, "if") ||
 			   sv_string_cmp(dir.str, "elif")) {
 		return !result_is_zero(evaluate_until_newline());
@@ -593,7 +600,7 @@ struct token directiver_next(void) {
 			if (sv_string_cmp(name, "define")) {
 				directiver_define();
 			} else if (sv_string_cmp(name, "undef")) {
-				define_map_remove(next().str);
+				define_map_remove(next_macro_name().str);
 			} else if (sv_string_cmp(name, "error")) {
 				struct token msg = next();
 				if (msg.type == T_STRING)
-- 
2.43.0


From 5d951471ed65305ded47d8e3ce7485997dd73342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:47 +0000
Subject: [PATCH 079/149] fix: ignore extra tokens after directives

---
 src/preprocessor/directives.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index 81b870e..381ba01 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -546,6 +546,14 @@ static struct conditional *current_conditional(struct token directive) {
 	return &cond_stack[cond_stack_n - 1];
 }
 
+// Extra tokens at the end of directives are ignored.
+static void skip_line(void) {
+	struct token t = next();
+	while (!t.first_of_line)
+		t = next();
+	push(t);
+}
+
 struct token directiver_next(void) {
 	struct token t = next();
 	int pass_directive = 0;
@@ -576,8 +584,10 @@ struct token directiver_next(void) {
 			sv_string_cmp(name, "ifdef") ||
 			sv_string_cmp(name, "if")) {
 			int state = -1;
-			if (is_active())
+			if (is_active()) {
 				state = directiver_evaluate_conditional(directive);
+				skip_line();
+			}
 			ADD_ELEMENT(cond_stack_n, cond_stack_cap, cond_stack) =
 				(struct conditional) { .state = state };
 		} else if (sv_string_cmp(name, "elif") ||
@@ -589,18 +599,22 @@ struct token directiver_next(void) {
 				ERROR(directive.pos, "#%.*s after #else", name.len, name.str);
 			cond->seen_else = sv_string_cmp(name, "else");
 
-			if (cond->state == 0)
+			if (cond->state == 0) {
 				cond->state = directiver_evaluate_conditional(directive);
-			else
+				skip_line();
+			} else {
 				cond->state = -1;
+			}
 		} else if (sv_string_cmp(name, "endif")) {
 			current_conditional(directive);
 			cond_stack_n--;
+			skip_line();
 		} else if (is_active()) {
 			if (sv_string_cmp(name, "define")) {
 				directiver_define();
 			} else if (sv_string_cmp(name, "undef")) {
 				define_map_remove(next_macro_name().str);
+				skip_line();
 			} else if (sv_string_cmp(name, "error")) {
 				struct token msg = next();
 				if (msg.type == T_STRING)
-- 
2.43.0


From 00a31aa23f5d26cfc873578b1631cce49b97a448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:30 +0000
Subject: [PATCH 080/149] fix: prefixed character constants in preprocessor
 expressions

---
 src/preprocessor/directives.c    |  4 +++-
 src/preprocessor/string_concat.c | 11 +++++++++--
 src/preprocessor/string_concat.h |  2 +-
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index 381ba01..148c0e4 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -289,7 +289,9 @@ static struct result evaluate_expression(int prec, int evaluate) {
 		else
 			expr = result_signed(c.uint_d);
 	} else if (t.type == T_CHARACTER_CONSTANT) {
-		expr = result_signed(escaped_character_constant_to_int(t));
+		int is_signed;
+		intmax_t value = escaped_character_constant_to_int(t, &is_signed);
+		expr = is_signed ? result_signed(value) : result_unsigned(value);
 	} else {
 		ERROR(t.pos, "Invalid token in preprocessor expression. %s", dbg_token(&t));
 	}
diff --git a/src/preprocessor/string_concat.c b/src/preprocessor/string_concat.c
index dc865c8..13074b7 100644
--- a/src/preprocessor/string_concat.c
+++ b/src/preprocessor/string_concat.c
@@ -249,7 +249,7 @@ struct token string_concat_next(void) {
 	return t;
 }
 
-intmax_t escaped_character_constant_to_int(struct token t) {
+intmax_t escaped_character_constant_to_int(struct token t, int *is_signed) {
 	enum string_type type = take_string_prefix(&t.str);
 	buffer_start();
 	escape_string_to_buffer(t.str, type);
@@ -263,5 +263,12 @@ intmax_t escaped_character_constant_to_int(struct token t) {
 		.str = buffer
 	};
 
-	return character_constant_to_int(tmp_view);
+	*is_signed = type == STRING_DEFAULT || type == STRING_L;
+
+	switch (type) {
+	case STRING_U_LARGE: return character_constant_char32_to_int(tmp_view);
+	case STRING_U_SMALL: return character_constant_char16_to_int(tmp_view);
+	case STRING_L: return character_constant_wchar_to_int(tmp_view);
+	default: return character_constant_to_int(tmp_view);
+	}
 }
diff --git a/src/preprocessor/string_concat.h b/src/preprocessor/string_concat.h
index cbebc9d..a7757ff 100644
--- a/src/preprocessor/string_concat.h
+++ b/src/preprocessor/string_concat.h
@@ -7,6 +7,6 @@ struct token string_concat_next(void);
 
 // Used in directives.c to get integer values of
 // non-escaped character constants.
-intmax_t escaped_character_constant_to_int(struct token t);
+intmax_t escaped_character_constant_to_int(struct token t, int *is_signed);
 
 #endif
-- 
2.43.0


From e70168186ce707226ac6c8347e2c2f3c4d152d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:30 +0000
Subject: [PATCH 081/149] fix: macros in #line directives

---
 src/preprocessor/directives.c | 44 ++++++++++++++---------------------
 1 file changed, 18 insertions(+), 26 deletions(-)

diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index 148c0e4..eb83d74 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -658,37 +658,29 @@ struct token directiver_next(void) {
 				if (digit_seq.first_of_line)
 					ERROR(digit_seq.pos, "Expected digit sequence after #line");
 
-				int has_s_char_seq = 0;
-				if (digit_seq.type != T_NUM) {
-					buffer.size = 0;
-					struct token t = digit_seq;
-					while (!t.first_of_line) {
-						token_list_add(&buffer, t);
-						t = next();
-					}
+				buffer.size = 0;
+				struct token arg = digit_seq;
+				while (!arg.first_of_line) {
+					token_list_add(&buffer, arg);
+					arg = next();
+				}
 
-					push(t);
+				push(arg);
 
-					expand_token_list(&buffer);
+				expand_token_list(&buffer);
 
-					if (buffer.size == 0) {
-						ERROR(digit_seq.pos, "Invalid #line macro expansion");
-					} else if (buffer.size >= 1) {
-						digit_seq = buffer.list[0];
-					} else if (buffer.size >= 2) {
-						s_char_seq = buffer.list[1];
-						has_s_char_seq = 1;
-					}
-				} else {
-					s_char_seq = next();
-					if (s_char_seq.first_of_line) {
-						push(s_char_seq);
-					} else {
-						has_s_char_seq = 1;
-					}
+				if (buffer.size == 0)
+					ERROR(digit_seq.pos, "Invalid #line macro expansion");
+
+				digit_seq = buffer.list[0];
+
+				int has_s_char_seq = 0;
+				if (buffer.size >= 2) {
+					s_char_seq = buffer.list[1];
+					has_s_char_seq = 1;
 				}
 
-				if (digit_seq.first_of_line || digit_seq.type != T_NUM)
+				if (digit_seq.type != T_NUM)
 					ERROR(digit_seq.pos, "Expected digit sequence after #line");
 
 				line_diff += atoi(sv_to_str(digit_seq.str)) - directive.pos.line - 1;
-- 
2.43.0


From 61687bf079e0d0d13a94ac67c5d7bbb1f4e8668a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:43 +0000
Subject: [PATCH 082/149] fix: macros expanding to <...> in #include

---
 src/preprocessor/directives.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index eb83d74..81d384f 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -425,6 +425,22 @@ static struct string_view get_include_path(struct token dir, struct token t, int
 
 	expand_token_list(&buffer);
 
+	if (buffer.size > 2 && buffer.list[0].type == T_L &&
+		buffer.list[buffer.size - 1].type == T_G) {
+		size_t size = 0, cap = 0;
+		char *path = NULL;
+		for (int i = 1; i < buffer.size - 1; i++) {
+			if (i != 1 && buffer.list[i].whitespace)
+				ADD_ELEMENT(size, cap, path) = ' ';
+			for (int j = 0; j < buffer.list[i].str.len; j++)
+				ADD_ELEMENT(size, cap, path) = buffer.list[i].str.str[j];
+		}
+
+		*system = 1;
+		buffer_pos = 0;
+		return (struct string_view) { .str = path, .len = size };
+	}
+
 	if (buffer.size != 1 || buffer.list[0].type != T_STRING)
 		ERROR(dir.pos, "Invalidly formatted path to #include directive.");
 
-- 
2.43.0


From de409a46210d4cbcd1ec39248f858de55d8fb2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:16 +0000
Subject: [PATCH 083/149] fix: # is an ordinary token in object-like macros

---
 src/preprocessor/macro_expander.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/preprocessor/macro_expander.c b/src/preprocessor/macro_expander.c
index a950ac8..efa5007 100644
--- a/src/preprocessor/macro_expander.c
+++ b/src/preprocessor/macro_expander.c
@@ -400,7 +400,7 @@ static void subs_buffer(struct token origin, struct define *def, struct string_s
 		struct token t = def->def.list[i];
 
 		const int concat = (i != 0) && def->def.list[i - 1].type == PP_HHASH;
-		const int stringify = (i != 0) && def->def.list[i - 1].type == PP_HASH;
+		const int stringify = def->func && (i != 0) && def->def.list[i - 1].type == PP_HASH;
 
 		if (t.type == PP_HHASH)
 			ERROR(t.pos, "Concat token at edge of macro expansion.");
-- 
2.43.0


From 8acf1a46bfc3edd1075f139c5248d61efe65f4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:16 +0000
Subject: [PATCH 084/149] fix: pastes forming other tokens

---
 src/preprocessor/macro_expander.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/preprocessor/macro_expander.c b/src/preprocessor/macro_expander.c
index efa5007..a0e1591 100644
--- a/src/preprocessor/macro_expander.c
+++ b/src/preprocessor/macro_expander.c
@@ -151,6 +151,12 @@ static struct token glue(struct token a, struct token b) {
 	for (unsigned i = 0; i < sizeof paste_table / sizeof *paste_table; i++)
 		if (paste_table[i][1] == a.type && paste_table[i][0] == b.type)
 			ret.type = paste_table[i][2];
+	if (!ret.type) {
+		char *spelling = allocate_printf("%.*s%.*s", b.str.len, b.str.str, a.str.len, a.str.str);
+		struct token_list tl = tokenize_input(spelling, a.pos.path);
+		if (tl.size == 1 && tl.list[0].type != PP_DIRECTIVE)
+			ret.type = tl.list[0].type;
+	}
 	if (!ret.type)
 		ERROR(a.pos, "Invalid paste of %.*s and %.*s", b.str.len, b.str.str, a.str.len, a.str.str);
 
-- 
2.43.0


From dd04a8555d8e5b0891662b914add43a6f3e352b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:16 +0000
Subject: [PATCH 085/149] fix: diagnose unterminated macro invocations

---
 src/preprocessor/macro_expander.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/preprocessor/macro_expander.c b/src/preprocessor/macro_expander.c
index a0e1591..fc51484 100644
--- a/src/preprocessor/macro_expander.c
+++ b/src/preprocessor/macro_expander.c
@@ -297,6 +297,8 @@ static int input_buffer_parse_argument(struct token_list *tl, int ignore_comma,
 	struct token t;
 	do {
 		t = input_buffer_take(input);
+		if (t.type == T_EOI)
+			ERROR(t.pos, "Unterminated macro invocation");
 		if(t.type == T_LPAR) {
 			depth++;
 		} else if(t.type == T_RPAR) {
-- 
2.43.0


From b9572ea725e968cca70be52f1ed0c59998a41063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:39 +0000
Subject: [PATCH 086/149] fix: diagnose misplaced operators in macro
 definitions

---
 src/preprocessor/macro_expander.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/preprocessor/macro_expander.c b/src/preprocessor/macro_expander.c
index fc51484..e5de3e0 100644
--- a/src/preprocessor/macro_expander.c
+++ b/src/preprocessor/macro_expander.c
@@ -47,7 +47,29 @@ static struct define **define_map_find(struct string_view name) {
 	return it;
 }
 
+static int get_param(struct define *def, struct token tok);
+
+static void define_check(struct define *def) {
+	for (int i = 0; i < def->def.size; i++) {
+		struct token *t = &def->def.list[i];
+		int last = i == def->def.size - 1;
+
+		if (t->type == PP_HHASH && (i == 0 || last))
+			ERROR(t->pos, "## at the edge of a macro definition");
+
+		if (sv_string_cmp(t->str, "__VA_ARGS__") && !def->vararg)
+			ERROR(t->pos, "__VA_ARGS__ outside of a variadic macro");
+
+		if (t->type == PP_HASH && def->func &&
+			(last || (get_param(def, t[1]) < 0 &&
+					  !sv_string_cmp(t[1].str, "__VA_ARGS__"))))
+			ERROR(t->pos, "# Should be followed by macro parameter");
+	}
+}
+
 void define_map_add(struct define define) {
+	define_check(&define);
+
 	struct define **elem = define_map_find(define.name);
 
 	if (define.def.size) { // Initial and ending whitespace of definition is ignored.
-- 
2.43.0


From 206d03f56c622f4e7a8ac5e5dbb3c8346bcacb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:40 +0000
Subject: [PATCH 087/149] fix: diagnose invalid macro and parameter names

---
 src/preprocessor/directives.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index 81d384f..26cbb35 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -145,6 +145,8 @@ static struct token next_macro_name(void) {
 	struct token name = next();
 	if (name.first_of_line || name.type != T_IDENT)
 		ERROR(name.pos, "Expected a macro name");
+	if (sv_string_cmp(name.str, "defined") || sv_string_cmp(name.str, "__VA_ARGS__"))
+		ERROR(name.pos, "Invalid macro name %s", sv_to_str(name.str));
 	return name;
 }
 
@@ -171,6 +173,9 @@ static void directiver_define(void) {
 				break;
 			}
 			EXPECT(&t, T_IDENT);
+			if (sv_string_cmp(t.str, "__VA_ARGS__") ||
+				token_list_index_of(&def.par, t) != -1)
+				ERROR(t.pos, "Invalid macro parameter %s", sv_to_str(t.str));
 			define_add_par(&def, t);
 
 			t = next();
-- 
2.43.0


From 7a5c182180dc50b723037083418d6e8e541f363a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:57 +0000
Subject: [PATCH 088/149] fix: diagnose an extra empty macro argument

---
 src/preprocessor/macro_expander.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/preprocessor/macro_expander.c b/src/preprocessor/macro_expander.c
index e5de3e0..553bec7 100644
--- a/src/preprocessor/macro_expander.c
+++ b/src/preprocessor/macro_expander.c
@@ -406,6 +406,9 @@ static void subs_buffer(struct token origin, struct define *def, struct string_s
 			}
 		}
 
+		if (n_args && !def->vararg && !finished)
+			ERROR(lpar.pos, "Wrong number of arguments to macro");
+
 
 		if (def->vararg && !finished) {
 			vararg_included = 1;
-- 
2.43.0


From 0b48c71c44de1ab4dad5257370c43302c046119b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:52 +0000
Subject: [PATCH 089/149] fix: empty operands of ##

---
 src/preprocessor/macro_expander.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/preprocessor/macro_expander.c b/src/preprocessor/macro_expander.c
index 553bec7..8552169 100644
--- a/src/preprocessor/macro_expander.c
+++ b/src/preprocessor/macro_expander.c
@@ -460,6 +460,8 @@ static void subs_buffer(struct token origin, struct define *def, struct string_s
 				
 				if (vararg.size)
 					concat_with_prev = !va_args_paste && concat;
+				else if (!concat)
+					concat_with_prev = 0;
 			}
 		} else {
 			const int idx = get_param(def, t);
@@ -479,6 +481,8 @@ static void subs_buffer(struct token origin, struct define *def, struct string_s
 
 				if (arguments[idx].size)
 					concat_with_prev = concat;
+				else if (!concat)
+					concat_with_prev = 0;
 			} else {
 				if (concat_with_prev) {
 					struct token *end = input_buffer_top(input);
-- 
2.43.0


From 9ef0dc42f5ee9c05f13655f7e8738fcaffb0bd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:56 +0000
Subject: [PATCH 090/149] fix: spelling of the tokens printed by -E

---
 src/main.c | 67 +++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 54 insertions(+), 13 deletions(-)

diff --git a/src/main.c b/src/main.c
index 2c648e5..d455ce6 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1,6 +1,8 @@
 #include "ir/ir.h"
 #include "ir/export_dot.h"
 #include "preprocessor/preprocessor.h"
+#include "preprocessor/directives.h"
+#include "preprocessor/macro_expander.h"
 #include "parser/parser.h"
 #include "parser/symbols.h"
 #include "codegen/codegen.h"
@@ -22,8 +24,10 @@
 #include "optimize/remove_dead.h"
 #include "optimize/peephole.h"
 
+#include <ctype.h>
 #include <time.h>
 #include <stdio.h>
+#include <string.h>
 #include <stdlib.h>
 #include <assert.h>
 
@@ -224,6 +228,49 @@ static void compile_file(const char *path,
 	parser_reset();
 }
 
+// Would the two characters possibly be part of the same token?
+static int characters_may_join(char a, char b) {
+	int a_word = isalnum((unsigned char)a) || a == '_' || a == '.' || (a & 0x80);
+	int b_word = isalnum((unsigned char)b) || b == '_' || b == '.' || (b & 0x80);
+
+	if (a_word && (b_word || strchr("\"'+-", b)))
+		return 1;
+
+	return strchr("+-*/%=<>&|^!#:", a) && strchr("+-*/%=<>&|^!#:", b);
+}
+
+static void print_token(struct token *t) {
+	static char prev = '\n';
+
+	const char *spelling = t->type == PP_DIRECTIVE ? "#" : NULL;
+
+	switch (t->type) {
+#define KEY(A, B)
+#define X(A, B)
+#define SYM(A, B) case A: spelling = B; break;
+#include "preprocessor/tokens.h"
+#undef KEY
+#undef X
+#undef SYM
+	default: break;
+	}
+
+	int len = spelling ? (int)strlen(spelling) : t->str.len;
+	if (!spelling)
+		spelling = t->str.str;
+	if (!len)
+		return;
+
+	if (t->first_of_line)
+		printf("\n");
+	else if (t->whitespace || prev == ' ' || characters_may_join(prev, spelling[0]))
+		printf(" ");
+
+	printf("%.*s", len, spelling);
+
+	prev = t->whitespace_after ? ' ' : spelling[len - 1];
+}
+
 // This function is only called when -E flag is passed.
 // That is: preprocess, but don't compile.
 static void preprocess_file(const char *path, struct arguments *arguments) {
@@ -258,22 +305,16 @@ static void preprocess_file(const char *path, struct arguments *arguments) {
 	if (arguments->flag_MD)
 		preprocessor_write_dependencies();
 
-	preprocessor_init(path);
+	directiver_push_input(path, 0);
 
-	while (T0->type != T_EOI) {
-		if (T0->first_of_line)
-			printf("\n");
-		else if (T0->whitespace)
-			printf(" ");
-
-		printf("%s", dbg_token(T0));
-
-		if (T0->whitespace_after)
-			printf(" ");
-
-		t_next();
+	struct token t = expander_next();
+	while (t.type != T_EOI) {
+		print_token(&t);
+		t = expander_next();
 	}
 
+	printf("\n");
+
 	preprocessor_reset();
 	ir_reset();
 	asm_reset();
-- 
2.43.0


From 6f05962cce90d23e4ca76f51634f97d9d94e4c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:24 +0000
Subject: [PATCH 091/149] fix: digraphs

---
 src/preprocessor/macro_expander.c | 18 +-----------------
 src/preprocessor/tokenizer.c      | 23 ++++++++++++++++++++++-
 2 files changed, 23 insertions(+), 18 deletions(-)

diff --git a/src/preprocessor/macro_expander.c b/src/preprocessor/macro_expander.c
index 8552169..ec84d3a 100644
--- a/src/preprocessor/macro_expander.c
+++ b/src/preprocessor/macro_expander.c
@@ -216,7 +216,6 @@ static void stringify_add(struct token *t, int start) {
 	if (!start && (t->whitespace || stringify_whitespace))
 		stringify_add_char(' ');
 	stringify_whitespace = t->whitespace_after;
-	const char *str = NULL;
 	switch (t->type) {
 	case T_STRING:
 	case T_CHARACTER_CONSTANT:
@@ -230,30 +229,15 @@ static void stringify_add(struct token *t, int start) {
 
 #define KEY(A, B)
 #define X(A, B)
-#define SYM(TOKEN, STR) case TOKEN: str = STR; break;
+#define SYM(TOKEN, STR) case TOKEN:
 		#include "tokens.h"
 #undef KEY
 #undef X
 #undef SYM
-
-	case PP_HASH:
-	case PP_DIRECTIVE:
-		str = "#";
-		break;
-
-	case PP_HHASH:
-		str = "##";
-		break;
-
 	default:
 		for (int i = 0; i < t->str.len; i++)
 			stringify_add_char(t->str.str[i]);
 	}
-
-	if (str) {
-		for (int i = 0; str[i]; i++)
-			stringify_add_char(str[i]);
-	}
 }
 
 static int builtin_macros(struct token *t) {
diff --git a/src/preprocessor/tokenizer.c b/src/preprocessor/tokenizer.c
index a7c24d2..76b0bb9 100644
--- a/src/preprocessor/tokenizer.c
+++ b/src/preprocessor/tokenizer.c
@@ -405,6 +405,8 @@ restart:
 				break;
 
 			case '=': TYPE(T_LEQ); break;
+			case ':': TYPE(T_LBRACK); break;
+			case '%': TYPE(T_LBRACE); break;
 			}
 		}
 		break;
@@ -488,12 +490,31 @@ restart:
 		TYPE(T_MOD);
 		switch (c) {
 		case '=': TYPE(T_MODA); break;
+		case '>': TYPE(T_RBRACE); break;
+
+		case ':':
+			TYPE(PP_HASH);
+
+			if (c == '%' && str[0] == ':') {
+				next_char();
+				TYPE(PP_HHASH);
+			} else if (next.first_of_line) {
+				next.type = PP_DIRECTIVE;
+				*is_directive = 1;
+			}
+			break;
 		}
 		break;
 
 	case '~': TYPE(T_BNOT); break;
 	case '?': TYPE(T_QUEST); break;
-	case ':': TYPE(T_COLON); break;
+	case ':':
+		TYPE(T_COLON);
+		switch (c) {
+		case '>': TYPE(T_RBRACK); break;
+		}
+		break;
+
 	case ';': TYPE(T_SEMI_COLON); break;
 	case '(': TYPE(T_LPAR); break;
 	case ')': TYPE(T_RPAR); break;
-- 
2.43.0


From 857f5c5a57f719cb6d48964df6d0a655224e7361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:56 +0000
Subject: [PATCH 092/149] fix: constant pointers to variable length arrays

---
 src/parser/expression.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index a11e36f..54aaeff 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -1039,7 +1039,8 @@ int evaluate_constant_expression(struct expr *expr,
 
 		if (lhs.type == CONSTANT_LABEL_POINTER &&
 			type_is_integer(rhs.data_type) &&
-			rhs.type == CONSTANT_TYPE) {
+			rhs.type == CONSTANT_TYPE &&
+			!type_has_variable_size(type_deref(lhs.data_type))) {
 			*constant = lhs;
 			int size = calculate_size(type_deref(lhs.data_type));
 
@@ -1052,7 +1053,8 @@ int evaluate_constant_expression(struct expr *expr,
 			return 1;
 		} else if (lhs.type == CONSTANT_TYPE && type_is_pointer(lhs.data_type) &&
 				   type_is_integer(rhs.data_type) &&
-				   rhs.type == CONSTANT_TYPE) {
+				   rhs.type == CONSTANT_TYPE &&
+				   !type_has_variable_size(type_deref(lhs.data_type))) {
 			*constant = lhs;
 			int size = calculate_size(type_deref(lhs.data_type));
 
@@ -1075,6 +1077,9 @@ int evaluate_constant_expression(struct expr *expr,
 		if (!evaluate_constant_expression(expr->args[1], &rhs))
 			return 0;
 
+		if (type_has_variable_size(type_deref(lhs.data_type)))
+			return 0;
+
 		int size = calculate_size(type_deref(lhs.data_type));
 		if (size <= 0)
 			return 0;
-- 
2.43.0


From 7a7640fc947d219733781276cb25cb89dbec5e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:29 +0000
Subject: [PATCH 093/149] fix: members of const structures are const

---
 src/parser/expression.c | 11 ++++++-----
 src/types.c             |  9 +++++++++
 src/types.h             |  1 +
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 54aaeff..8f1b073 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -155,8 +155,11 @@ static struct type *calculate_type(struct expr *expr) {
 	case E_CAST:
 		return expr->cast.target;
 
-	case E_DOT_OPERATOR:
-		return type_select(expr->member.lhs->data_type, expr->member.member_idx);
+	case E_DOT_OPERATOR: {
+		struct type *member_type = type_select(expr->member.lhs->data_type, expr->member.member_idx);
+		// See 6.5.2.3.
+		return expr->member.lhs->data_type->is_const ? type_qualify_const(member_type) : member_type;
+	}
 
 	case E_CONDITIONAL:
 		assert(expr->args[1]->data_type == expr->args[2]->data_type);
@@ -1109,11 +1112,9 @@ int evaluate_constant_expression(struct expr *expr,
 			if (bit_size != -1)
 				return 0;
 
-			struct type *child_type = type_select(lhs.data_type, expr->member.member_idx);
-
 			*constant = lhs;
 			constant->label.offset += offset;
-			constant->data_type = child_type;
+			constant->data_type = expr->data_type;
 
 			return 1;
 		}
diff --git a/src/types.c b/src/types.c
index 325d9c6..8e2c967 100644
--- a/src/types.c
+++ b/src/types.c
@@ -174,6 +174,15 @@ struct type *type_remove_qualifications(struct type *type) {
 	return type_create(&params, type->children);
 }
 
+// The qualification of an array applies to its elements.
+struct type *type_qualify_const(struct type *type) {
+	if (type->type == TY_ARRAY || type->type == TY_INCOMPLETE_ARRAY) {
+		struct type *element = type_qualify_const(type->children[0]);
+		return type_create(type, &element);
+	}
+	return type_make_const(type, 1);
+}
+
 // TODO: make this better.
 struct struct_data *register_struct(void) {
 	return cc_malloc(sizeof (struct struct_data));
diff --git a/src/types.h b/src/types.h
index 4ed0870..bec4ea8 100644
--- a/src/types.h
+++ b/src/types.h
@@ -136,6 +136,7 @@ struct type *type_array(struct type *type, int length);
 struct type *type_deref(struct type *type);
 struct type *type_struct(struct struct_data *struct_data);
 struct type *type_make_const(struct type *type, int is_const);
+struct type *type_qualify_const(struct type *type);
 struct type *type_adjust_parameter(struct type *type);
 struct type *type_remove_qualifications(struct type *type);
 
-- 
2.43.0


From 8a0ae974497b7f494ab6640c1d3d2e4b9430c3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:29 +0000
Subject: [PATCH 094/149] fix: const qualified array types

---
 src/parser/declaration.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index b5fed7e..d407570 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -656,7 +656,7 @@ static int null_type_qualifier(struct type_qualifiers *tq) {
 }
 
 static struct type *apply_tq(struct type *type, const struct type_qualifiers *tq) {
-	if (tq->const_n == 1)
+	if (tq->const_n >= 1)
 		type = type_make_const(type, 1);
 	return type;
 }
@@ -664,7 +664,8 @@ static struct type *apply_tq(struct type *type, const struct type_qualifiers *tq
 struct type *ast_to_type(const struct type_specifiers *ts, const struct type_qualifiers *tq, struct type_ast *ast, struct string_view *name, int allow_tq_in_array) {
 	struct type *type = specifiers_to_type(ts);
 
-	type = apply_tq(type, tq);
+	if (tq->const_n >= 1)
+		type = type_qualify_const(type);
 
 	if (!ast)
 		return type;
-- 
2.43.0


From ace78ea8cda5c79af526a4cdfd008195a4dd0561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:30 +0000
Subject: [PATCH 095/149] fix: types of conditional expressions with pointers

---
 src/parser/expression.c | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 8f1b073..dd8eb92 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -233,6 +233,31 @@ static int is_null_pointer_constant(struct expr *expr) {
 	return c && c->type == CONSTANT_TYPE && constant_is_zero(c);
 }
 
+// See 6.5.15p6. NULL if the types can't be combined.
+static struct type *conditional_pointer_type(struct expr *a, struct expr *b) {
+	struct type *a_type = type_remove_qualifications(type_deref(a->data_type)),
+		*b_type = type_remove_qualifications(type_deref(b->data_type)),
+		*void_type = type_simple(ST_VOID), *result;
+
+	if (type_deref(a->data_type) == void_type && is_null_pointer_constant(a))
+		return b->data_type;
+	if (type_deref(b->data_type) == void_type && is_null_pointer_constant(b))
+		return a->data_type;
+
+	if (a_type == void_type || b_type == void_type)
+		result = void_type;
+	else
+		result = type_make_composite(a_type, b_type);
+
+	if (!result)
+		return NULL;
+
+	if (type_deref(a->data_type)->is_const || type_deref(b->data_type)->is_const)
+		result = type_qualify_const(result);
+
+	return type_pointer(result);
+}
+
 static void cast_conditional(struct expr *expr) {
 	if (expr->type != E_CONDITIONAL)
 		return;
@@ -244,14 +269,8 @@ static void cast_conditional(struct expr *expr) {
 		return;
 
 	if (type_is_pointer(a) && type_is_pointer(b)) {
-		struct type *composite;
-		if (type_remove_qualifications(type_deref(a)) == type_simple(ST_VOID))
-			expr->args[1] = expression_cast(expr->args[1], b);
-		else if (type_remove_qualifications(type_deref(b)) == type_simple(ST_VOID))
-			expr->args[2] = expression_cast(expr->args[2], a);
-		else if ((composite = type_make_composite(type_remove_qualifications(type_deref(a)),
-												  type_remove_qualifications(type_deref(b))))) {
-			composite = type_pointer(composite);
+		struct type *composite = conditional_pointer_type(expr->args[1], expr->args[2]);
+		if (composite) {
 			expr->args[2] = expression_cast(expr->args[2], composite);
 			expr->args[1] = expression_cast(expr->args[1], composite);
 		} else {
-- 
2.43.0


From dfdd54cf959bf9b11b17b506027e18dab0e3ec81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:16 +0000
Subject: [PATCH 096/149] fix: values of const objects have unqualified types

---
 src/parser/expression.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index dd8eb92..b844171 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -1263,7 +1263,10 @@ int evaluate_constant_expression(struct expr *expr,
 		struct constant c;
 		if (!evaluate_constant_expression(expr->args[0], &c))
 			return 0;
+		if (c.type == CONSTANT_LABEL)
+			return 0;
 		*constant = c;
+		constant->data_type = expr->data_type;
 	} break;
 
 	default:
-- 
2.43.0


From a27a9feed62c131c4b98b4d0f7f48f2a49d3024a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:23 +0000
Subject: [PATCH 097/149] fix: enumeration constants have type int

---
 src/parser/declaration.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index d407570..50cf4cf 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -252,7 +252,15 @@ static int parse_enumerator(struct constant *prev, int first) {
 		if (!ret)
 			ERROR(T0->pos, "Could not evaluate constant expression, is of type %d", expr->type);
 
-		val = *ret;
+		if (ret->type != CONSTANT_TYPE || !type_is_integer(ret->data_type))
+			ERROR(T0->pos, "The value of an enumerator must be an integer");
+
+		// Values that don't fit keep their type, as an extension.
+		val = constant_cast(*ret, type_simple(ENUM_TYPE));
+		struct constant back = constant_cast(val, ret->data_type);
+		if (is_signed(ret->data_type->simple) ? back.int_d != ret->int_d :
+			(back.uint_d != ret->uint_d || val.int_d < 0))
+			val = *ret;
 	} else {
 		if (!first)
 			val = constant_increment(*prev);
-- 
2.43.0


From 92ea27002e7fbfd72c7c4294f413e3497d1f325d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:24 +0000
Subject: [PATCH 098/149] fix: qualifiers of parameters are not part of
 function types

---
 src/parser/declaration.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 50cf4cf..7f76fdd 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -695,7 +695,7 @@ struct type *ast_to_type(const struct type_specifiers *ts, const struct type_qua
 
 			struct type *parameters[ast->function.n + 1];
 			for (int i = 0; i < ast->function.n; i++)
-				parameters[i + 1] = ast->function.types[i];
+				parameters[i + 1] = type_remove_qualifications(ast->function.types[i]);
 			parameters[0] = type;
 
 			type = type_create(&params, parameters);
-- 
2.43.0


From 41df3fea6a935567ad0995d5e866f177c01b0215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:24 +0000
Subject: [PATCH 099/149] fix: identifiers hide typedef names of outer scopes

---
 src/parser/symbols.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/symbols.c b/src/parser/symbols.c
index 759370c..689c693 100644
--- a/src/parser/symbols.c
+++ b/src/parser/symbols.c
@@ -239,6 +239,12 @@ struct symbol_typedef *symbols_add_typedef(struct string_view name) {
 
 struct symbol_typedef *symbols_get_typedef(struct string_view name) {
 	struct table_entry *entry = symbols_get(ENTRY_TYPEDEF, name);
+	struct table_entry *identifier = symbols_get(ENTRY_IDENTIFIER, name);
+
+	// They share a name space, the innermost declaration is visible.
+	if (entry && identifier && identifier->block > entry->block)
+		return NULL;
+
 	return entry ? &entry->typedef_data : NULL;
 }
 
-- 
2.43.0


From efe022cd91b70473d12fb6c5f840746b94e07fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:24 +0000
Subject: [PATCH 100/149] fix: tentative definitions followed by extern
 declarations

---
 src/parser/declaration.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 7f76fdd..900e1f8 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1331,7 +1331,7 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 
 	// Check for agreement with previous declarations.
 	struct symbol_identifier *symbol = symbols_get_identifier_in_current_scope(name);
-	int prev_definition = 0;
+	int prev_definition = 0, is_redeclaration = symbol != NULL;
 
 	if (symbol) {
 		prev_definition = symbol->has_definition;
@@ -1401,7 +1401,10 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 	symbol->alignment = s.as.alignment;
 
 	if (!prev_definition) {
-		symbol->is_tentative = is_tentative;
+		// See 6.2.2p4 and 6.9.2p2.
+		if (is_redeclaration && s.scs.extern_n)
+			is_global = symbol->is_global;
+		symbol->is_tentative = !has_definition && (is_tentative || symbol->is_tentative);
 		symbol->is_global = is_global;
 		symbol->has_definition = has_definition;
 	} else {
-- 
2.43.0


From 394ad09290e39fcc3beaa6d8db18826d78c4dfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:24 +0000
Subject: [PATCH 101/149] fix: extern declarations with an initializer

---
 src/parser/declaration.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 900e1f8..7d3e6eb 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1368,7 +1368,7 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 	int is_global = 0;
 	int is_tentative = 0;
 
-	if (s.scs.extern_n && has_init)
+	if (s.scs.extern_n && has_init && !external)
 		ERROR(T0->pos, "Extern declaration can't have initializer.");
 
 	if (s.scs.register_n)
@@ -1380,10 +1380,10 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 		if (!s.scs.static_n)
 			is_global = 1;
 
-		if (s.scs.extern_n) {
-			has_definition = 0;
-		} else if (has_init) {
+		if (has_init) {
 			has_definition = 1;
+		} else if (s.scs.extern_n) {
+			has_definition = 0;
 		} else {
 			is_tentative = 1;
 		}
-- 
2.43.0


From 24588e4e4ad749cfd3b8f0ff2aa4c4c62545fe1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:25 +0000
Subject: [PATCH 102/149] fix: linkage of functions declared static before

---
 src/parser/declaration.c     | 9 ++++++++-
 src/parser/function_parser.c | 1 +
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 7d3e6eb..b79bfa6 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1307,7 +1307,11 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 		if (arg_n && !args)
 			ERROR(T0->pos, "Should not be null");
 
-		parse_function(name, type, arg_n, args, s.scs.static_n ? 0 : 1);
+		// See 6.2.2p5.
+		struct symbol_identifier *prev = symbols_get_identifier_global(name);
+		int is_static = s.scs.static_n || (prev && !prev->is_global);
+
+		parse_function(name, type, arg_n, args, !is_static);
 		*was_func = 1;
 		return 1;
 	}
@@ -1356,6 +1360,9 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 		if (!external && s.scs.static_n)
 			ERROR(T0->pos, "Function declarations outside file-scope can't be static.");
 
+		if (!is_redeclaration)
+			symbol->is_global = !s.scs.static_n;
+
 		symbol->type = IDENT_LABEL;
 		symbol->label.name = name;
 		symbol->label.type = type;
diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 8a768be..a0c6789 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -532,6 +532,7 @@ void parse_function(struct string_view name, struct type *type, int arg_n, struc
 	if (!symbol)
 		symbol = symbols_add_identifier_global(name);
 
+	symbol->is_global = global;
 	symbol->type = IDENT_LABEL;
 	symbol->label.type = type;
 	symbol->label.name = name;
-- 
2.43.0


From dd2829eab0f2be916ca976e3abeed9bd0b5960e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:34 +0000
Subject: [PATCH 103/149] fix: tentative definitions of arrays of unknown size

---
 src/parser/declaration.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index b79bfa6..5699a50 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1501,6 +1501,13 @@ void generate_tentative_definitions(void) {
 
 		if (symbol && symbol->is_tentative) {
 			struct type *type = symbols_get_identifier_type(symbol);
+
+			// See 6.9.2p5.
+			if (type->type == TY_INCOMPLETE_ARRAY) {
+				type = type_array(type->children[0], 1);
+				symbol->label.type = type;
+			}
+
 			data_register_static_var(name, type, (struct initializer) { 0 }, symbol->is_global, symbol->alignment);
 			symbol->is_tentative = 0;
 		}
-- 
2.43.0


From 8e471de60cbc9ae93f12f38503e829f4df1d2e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:48 +0000
Subject: [PATCH 104/149] fix: record the alignment of a section even if no
 padding is needed

---
 src/linker/object.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/linker/object.c b/src/linker/object.c
index 9be7e0d..9ee86cb 100644
--- a/src/linker/object.c
+++ b/src/linker/object.c
@@ -102,12 +102,13 @@ void object_write_zero(size_t size) {
 
 void object_align(size_t alignment) {
 	struct section *section = &current_object.sections[current_section];
+	section->alignment = MAX(section->alignment, alignment);
+
 	size_t remainder = section->size % alignment;
 	if (remainder == 0)
 		return;
 
 	object_write_zero(alignment - remainder);
-	section->alignment = MAX(section->alignment, alignment);
 }
 
 void object_symbol_relocate(label_id label, int64_t offset, int64_t add, enum relocation_type type) {
-- 
2.43.0


From 0ce15badb416cbd2780b845e90e18be042666135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:54 +0000
Subject: [PATCH 105/149] fix: give references resolved by the linker the value
 of the definition

---
 src/linker/linker.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/linker/linker.c b/src/linker/linker.c
index ed9ad91..6b03df5 100644
--- a/src/linker/linker.c
+++ b/src/linker/linker.c
@@ -73,17 +73,15 @@ static struct object *combine_objects(int n_objects, struct object *objects) {
 			if (!symbol->name) {
 				ICE("Invalid local relocation.\n");
 			}
-			int found_section = -1;
 			for (unsigned j = 0; j < object.symbol_size; j++) {
 				if (object.symbols[j].name && object.symbols[j].global && object.symbols[j].section != -1) {
 					if (strcmp(object.symbols[j].name, symbol->name) == 0) {
-						if (object.symbols[j].section != -1)
-							found_section = object.symbols[j].section;
+						symbol->section = object.symbols[j].section;
+						symbol->value = object.symbols[j].value;
+						break;
 					}
 				}
 			}
-
-			symbol->section = found_section;
 		}
 	}
 
-- 
2.43.0


From 4481644df78b9cb4210daf03f216dfcf7d54950b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:54 +0000
Subject: [PATCH 106/149] fix: skip undefined symbols when looking for the
 entry point

---
 src/linker/linker.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/linker/linker.c b/src/linker/linker.c
index 6b03df5..f0356b0 100644
--- a/src/linker/linker.c
+++ b/src/linker/linker.c
@@ -168,6 +168,9 @@ struct executable *linker_link(int n_objects, struct object *_objects) {
 	for (unsigned i = 0; i < object->symbol_size; i++) {
 		struct symbol *symbol = &object->symbols[i];
 
+		if (symbol->section == -1)
+			continue;
+
 		struct section_info *symbol_section_info = &section_infos[symbol->section];
 		struct segment *symbol_segment = &executable.segments[symbol_section_info->segment_idx];
 
-- 
2.43.0


From 8ce75beab5c8769f53f2244179cbb3c754c1dcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:16 +0000
Subject: [PATCH 107/149] fix: honour section alignment in the built-in linker

---
 src/linker/elf.c    |  1 +
 src/linker/linker.c | 15 +++++++++------
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/linker/elf.c b/src/linker/elf.c
index 104f7df..0d1902c 100644
--- a/src/linker/elf.c
+++ b/src/linker/elf.c
@@ -217,6 +217,7 @@ static struct object *object_from_elf(struct elf_file *elf) {
 			.size = elf_section->size,
 			.cap = elf_section->size,
 			.data = elf_section->data,
+			.alignment = elf_section->header.sh_addralign,
 		};
 
 		if (elf_section->header.sh_name)
diff --git a/src/linker/linker.c b/src/linker/linker.c
index f0356b0..a670b18 100644
--- a/src/linker/linker.c
+++ b/src/linker/linker.c
@@ -3,6 +3,7 @@
 #include "common.h"
 
 #include <stdlib.h>
+#include <string.h>
 
 struct combined_relocation {
 	enum relocation_type type;
@@ -114,13 +115,15 @@ struct executable *linker_link(int n_objects, struct object *_objects) {
 	// Move sections into segment.
 	for (unsigned i = 0; i < object->section_size; i++) {
 		struct section *section = &object->sections[i];
-		uint8_t *dest = segment->data;
-		if (section->size) {
-			dest = ADD_ELEMENTS(segment->size, segment->cap, segment->data, section->size);
-			memcpy(dest, section->data, section->size);
-		}
 
-		size_t offset = dest - segment->data;
+		// The load address of the segment is sufficiently aligned.
+		size_t padding = section->alignment ? round_up_to_nearest(segment->size, section->alignment) - segment->size : 0;
+		if (padding)
+			memset(ADD_ELEMENTS(segment->size, segment->cap, segment->data, padding), 0, padding);
+
+		size_t offset = segment->size;
+		if (section->size)
+			memcpy(ADD_ELEMENTS(segment->size, segment->cap, segment->data, section->size), section->data, section->size);
 
 		section_infos[i] = (struct section_info) {
 			.offset = offset,
-- 
2.43.0


From 66ec4cf7ecc374d8fbeb3a05158ef88df3e30227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:43 +0000
Subject: [PATCH 108/149] fix: do not emit the data of earlier files again

---
 src/codegen/rodata.c | 15 ++++++++++++++-
 src/codegen/rodata.h |  2 ++
 src/main.c           |  2 ++
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/codegen/rodata.c b/src/codegen/rodata.c
index 9b5d4ab..e72cc0b 100644
--- a/src/codegen/rodata.c
+++ b/src/codegen/rodata.c
@@ -79,8 +79,9 @@ label_id register_label_name(struct string_view str) {
 	return label_register(ENTRY_LABEL_NAME, str);
 }
 
+static int tmp_label_idx = -2; // -1 is left for null label.
+
 label_id register_label(void) {
-	static int tmp_label_idx = -2; // -1 is left for null label.
 	return tmp_label_idx--;
 }
 
@@ -95,6 +96,18 @@ struct static_var {
 static struct static_var *static_vars = NULL;
 static int static_vars_size, static_vars_cap;
 
+void rodata_reset(void) {
+	free(entries);
+	entries = NULL;
+	entries_size = entries_cap = 0;
+
+	free(static_vars);
+	static_vars = NULL;
+	static_vars_size = static_vars_cap = 0;
+
+	tmp_label_idx = -2;
+}
+
 void data_register_static_var(struct string_view label, struct type *type, struct initializer init, int global, int alignment) {
 	ADD_ELEMENT(static_vars_size, static_vars_cap, static_vars) = (struct static_var) {
 		.label_ = register_label_name(label),
diff --git a/src/codegen/rodata.h b/src/codegen/rodata.h
index 1dfc83d..62d015e 100644
--- a/src/codegen/rodata.h
+++ b/src/codegen/rodata.h
@@ -18,4 +18,6 @@ struct initializer;
 void data_register_static_var(struct string_view label, struct type *type, struct initializer init, int global, int alignment);
 void data_codegen(void);
 
+void rodata_reset(void);
+
 #endif
diff --git a/src/main.c b/src/main.c
index d455ce6..a17e22f 100644
--- a/src/main.c
+++ b/src/main.c
@@ -225,6 +225,7 @@ static void compile_file(const char *path,
 	preprocessor_reset();
 	ir_reset();
 	asm_reset();
+	rodata_reset();
 	parser_reset();
 }
 
@@ -318,6 +319,7 @@ static void preprocess_file(const char *path, struct arguments *arguments) {
 	preprocessor_reset();
 	ir_reset();
 	asm_reset();
+	rodata_reset();
 	parser_reset();
 }
 
-- 
2.43.0


From f1d58ff4b2f320a5db761a6cc72bb27d4c68baf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:43 +0000
Subject: [PATCH 109/149] fix: forget the pack stack between files

---
 src/parser/parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index a47283f..200849a 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -22,6 +22,7 @@ void parser_reset(void) {
 	pack_size = pack_cap = 0;
 	current_packing = 0;
 	free(packs);
+	packs = NULL;
 	symbols_reset();
 }
 
-- 
2.43.0


From fd7f0c30ff050d96a732f14013116fe7b4b38277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:05 +0000
Subject: [PATCH 110/149] fix: accept identifiers of more than 63 characters

---
 src/assembler/assembler.c | 2 +-
 src/codegen/rodata.h      | 2 ++
 src/linker/object.c       | 4 ++--
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/assembler/assembler.c b/src/assembler/assembler.c
index 07a2e31..1d8141c 100644
--- a/src/assembler/assembler.c
+++ b/src/assembler/assembler.c
@@ -63,7 +63,7 @@ static void asm_emit_no_newline(const char *fmt, ...) {
 }
 
 static void emit_label(label_id id) {
-	char buffer[64];
+	char buffer[MAX_LABEL_LENGTH];
 	rodata_get_label(id, sizeof buffer, buffer);
 	asm_emit_no_newline("%s", buffer);
 }
diff --git a/src/codegen/rodata.h b/src/codegen/rodata.h
index 62d015e..009cfad 100644
--- a/src/codegen/rodata.h
+++ b/src/codegen/rodata.h
@@ -5,6 +5,8 @@
 
 typedef int label_id;
 
+#define MAX_LABEL_LENGTH 4096
+
 label_id rodata_register(struct string_view str);
 label_id register_label_name(struct string_view str);
 label_id register_label(void);
diff --git a/src/linker/object.c b/src/linker/object.c
index 9ee86cb..b660599 100644
--- a/src/linker/object.c
+++ b/src/linker/object.c
@@ -9,7 +9,7 @@ static struct object current_object;
 static int current_section = -1;
 
 static int get_symbol(label_id label) {
-	char buffer[64];
+	char buffer[MAX_LABEL_LENGTH];
 
 	rodata_get_label(label, sizeof buffer, buffer);
 
@@ -24,7 +24,7 @@ static int get_symbol(label_id label) {
 	};
 
 	if (label != -1) {
-		char buffer[64];
+		char buffer[MAX_LABEL_LENGTH];
 
 		rodata_get_label(label, sizeof buffer, buffer);
 
-- 
2.43.0


From 1b822fdcfa3f5a0543f117ec306cf7a4ecd64602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:34 +0000
Subject: [PATCH 111/149] fix: diagnose missing commas and semicolons in
 declarator lists

---
 src/parser/declaration.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 5699a50..a1df816 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -419,6 +419,7 @@ int parse_struct(struct type_specifiers *ts) {
 			int found_one = 0;
 			struct type_ast *ast = NULL;
 			int was_abstract = 1;
+			int after_comma = 0;
 			while (1) {
 				struct type *type = NULL;
 				struct string_view name = { 0 };
@@ -455,6 +456,8 @@ int parse_struct(struct type_specifiers *ts) {
 						(bitfield == 0 && !needs_bitfield))
 						ERROR(T0->pos, "Invalid width of bit-field");
 				} else if (needs_bitfield) {
+					if (after_comma)
+						ERROR(T0->pos, "Expected member declarator");
 					break;
 				}
 
@@ -465,13 +468,15 @@ int parse_struct(struct type_specifiers *ts) {
 					.alignment = s.as.alignment
 				};
 
-				TACCEPT(T_COMMA);
+				after_comma = TACCEPT(T_COMMA);
+				if (!after_comma)
+					break;
 			}
 
 			TEXPECT(T_SEMI_COLON);
 
 			if (!found_one) {
-				if (s.ts.data_type->type == TY_STRUCT) {
+				if (s.ts.data_type && s.ts.data_type->type == TY_STRUCT) {
 					ADD_ELEMENT(fields_size, fields_cap, fields) = (struct field) {
 						.type = s.ts.data_type,
 						.name = { 0 },
@@ -1483,8 +1488,13 @@ int parse_declaration(int external) {
 	}
 
 	int was_func = 0;
-	while (!was_func && parse_init_declarator(s, external, &was_func)) {
-		TACCEPT(T_COMMA);
+	if (parse_init_declarator(s, external, &was_func)) {
+		while (!was_func && TACCEPT(T_COMMA)) {
+			if (!parse_init_declarator(s, external, &was_func))
+				ERROR(T0->pos, "Expected declarator");
+			if (was_func)
+				ERROR(T0->pos, "Function definition in a list of declarators");
+		}
 	}
 
 	if (!was_func)
-- 
2.43.0


From f3e13534b24af653608aec1b033334b058845e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:35 +0000
Subject: [PATCH 112/149] fix: missing widths of bit-fields and missing
 designator indices

---
 src/parser/expression.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index b844171..07cd8ba 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -1276,6 +1276,9 @@ int evaluate_constant_expression(struct expr *expr,
 }
 
 struct expr *expression_cast(struct expr *expr, struct type *type) {
+	if (!expr)
+		ERROR(T0->pos, "Expected expression, got %s", dbg_token(T0));
+
 	decay_array(&expr);
 	return (expr->data_type == type) ? expr :
 		expr_new((struct expr) {
-- 
2.43.0


From 7007d4c75826655ceacc4ffdc4fee94767cc74b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:35 +0000
Subject: [PATCH 113/149] fix: diagnose a trailing comma in a parameter list

---
 src/parser/declaration.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index a1df816..9fd2d51 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -791,8 +791,10 @@ static struct parameter_list parse_parameter_list(void) {
 
 	struct specifiers s;
 	int first = 1;
+	int after_comma = 0;
 	while (parse_specifiers(&s.ts, &s.scs, &s.tq, &s.fs, &s.as)) {
 		int was_abstract = 10;
+		after_comma = 0;
 		struct type_ast *ast = parse_declarator(&was_abstract, 0);
 
 		if (first) {
@@ -821,11 +823,14 @@ static struct parameter_list parse_parameter_list(void) {
 			break;
 
 		TEXPECT(T_COMMA);
+		after_comma = 1;
 	}
 
 	if (TACCEPT(T_ELLIPSIS)) {
 		ret.vararg = 1;
 	} else {
+		if (after_comma)
+			ERROR(T0->pos, "Expected parameter declaration");
 		ret.vararg = 0;
 	}
 
-- 
2.43.0


From da392b55d1be390726dd5d5d9e7bab3fab0f1575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:35 +0000
Subject: [PATCH 114/149] fix: diagnose struct, union and enum without tag or
 members

---
 src/parser/declaration.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 9fd2d51..8a4878e 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -293,6 +293,8 @@ int parse_enum(struct type_specifiers *ts) {
 		name = T0->str;
 		TNEXT();
 	} else {
+		if (T0->type != T_LBRACE)
+			ERROR(T0->pos, "Expected tag or list of enumerators");
 		static int anonymous_counter = 0;
 		name = sv_from_str(allocate_printf("<enum-%d>", anonymous_counter++));
 	}
@@ -300,6 +302,8 @@ int parse_enum(struct type_specifiers *ts) {
 	if (TACCEPT(T_LBRACE)) {
 		int first = 1;
 		struct constant prev;
+		if (T0->type != T_IDENT)
+			ERROR(T0->pos, "Expected enumerator");
 		while (parse_enumerator(&prev, first)) {
 			first = 0;
 		}
@@ -324,6 +328,7 @@ int parse_enum(struct type_specifiers *ts) {
 		}
 
 		*data = (struct enum_data) {
+			.is_complete = 1,
 			.name = name
 		};
 
@@ -400,6 +405,8 @@ int parse_struct(struct type_specifiers *ts) {
 		name = T0->str;
 		TNEXT();
 	} else {
+		if (T0->type != T_LBRACE)
+			ERROR(T0->pos, "Expected tag or list of members");
 		static int anonymous_counter = 0;
 		name = sv_from_str(allocate_printf("<%d>", anonymous_counter++));
 	}
-- 
2.43.0


From 43a9b8bac2af72f002445bccc86cdb390d4faeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:08 +0000
Subject: [PATCH 115/149] fix: variables are visible in their own initializers

---
 src/parser/declaration.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 8a4878e..bde9b0b 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1467,17 +1467,15 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 					ERROR(T0->pos, "Variable length array can't have initializer");
 			} else {
 				symbol->type = IDENT_VARIABLE;
-				struct node *ptr;
 				symbol->variable.type = type;
 				if (has_init) {
 					struct initializer init = parse_initializer(&type);
 					symbol->variable.type = type;
-					ptr = ir_allocate(calculate_size(type), symbol->alignment);
-					ir_init_ptr(&init, type, ptr);
+					symbol->variable.ptr = ir_allocate(calculate_size(type), symbol->alignment);
+					ir_init_ptr(&init, type, symbol->variable.ptr);
 				} else {
-					ptr = ir_allocate(calculate_size(type), symbol->alignment);
+					symbol->variable.ptr = ir_allocate(calculate_size(type), symbol->alignment);
 				}
-				symbol->variable.ptr = ptr;
 			}
 		}
 	} else {
-- 
2.43.0


From 2d43e5b9b40328ae5a9dfb9e9c779ec697d2c4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:08 +0000
Subject: [PATCH 116/149] fix: diagnose missing statements, misplaced and
 undefined jump targets

---
 src/parser/function_parser.c | 52 ++++++++++++++++++++++++++++++------
 1 file changed, 44 insertions(+), 8 deletions(-)

diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index a0c6789..3f51b8c 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -21,8 +21,13 @@ struct jump_blocks {
 	struct node *block_entry, *block_default;
 	struct node *case_control;
 	struct type *case_type;
+	size_t first_case;
 };
 
+// The values of the case labels of all enclosing switch statements.
+static size_t case_size, case_cap;
+static constant_uint *cases;
+
 static struct function_scope {
 	size_t size, cap;
 
@@ -40,6 +45,11 @@ static void add_function_scope_label(struct string_view label, struct node *bloc
 
 // See section 6.8 of standard.
 int parse_statement(struct jump_blocks *jump_blocks);
+static void expect_statement(struct jump_blocks *jump_blocks) {
+	if (!parse_statement(jump_blocks))
+		ERROR(T0->pos, "Expected statement, got %s", dbg_token(T0));
+}
+
 int parse_labeled_statement(struct jump_blocks *jump_blocks);
 int parse_compound_statement(struct jump_blocks *jump_blocks);
 int parse_expression_statement(void);
@@ -87,10 +97,19 @@ int parse_labeled_statement(struct jump_blocks *jump_blocks) {
 		if (!case_control)
 			ERROR(T0->pos, "Not currently in a switch statement");
 
+		if (!type_is_integer(value->data_type))
+			ERROR(T0->pos, "Case label must be an integer");
+
 		struct constant *constant = expression_to_constant(expression_cast(value, jump_blocks->case_type));
-		if (!constant)
+		if (!constant || constant->type != CONSTANT_TYPE)
 			ERROR(T0->pos, "Expression not constant, is of type %d", value->type);
 
+		for (size_t i = jump_blocks->first_case; i < case_size; i++) {
+			if (cases[i] == constant->uint_d)
+				ERROR(T0->pos, "Duplicate case value");
+		}
+		ADD_ELEMENT(case_size, case_cap, cases) = constant->uint_d;
+
 		struct node *block_case = new_block(),
 			*new_entry = new_block();
 
@@ -118,6 +137,8 @@ int parse_labeled_statement(struct jump_blocks *jump_blocks) {
 		ir_block_start(block_default);
 		if (!jump_blocks->block_entry)
 			ERROR(T0->pos, "Not currently in a switch statement");
+		if (jump_blocks->block_default)
+			ERROR(T0->pos, "More than one default label in a switch statement");
 		jump_blocks->block_default = block_default;
 
 		parse_statement(jump_blocks);
@@ -172,6 +193,9 @@ static int parse_switch(struct jump_blocks *jump_blocks) {
 			.args = { condition }
 		});
 
+	if (!type_is_integer(condition->data_type))
+		ERROR(T0->pos, "Controlling expression of switch must be an integer");
+
 	struct node *case_control = expression_to_ir(condition);
 
 	TEXPECT(T_RPAR);
@@ -190,9 +214,11 @@ static int parse_switch(struct jump_blocks *jump_blocks) {
 	new_jump_blocks.case_control = case_control;
 	new_jump_blocks.case_type = condition->data_type;
 	new_jump_blocks.block_default = NULL;
+	new_jump_blocks.first_case = case_size;
 
 	// Parse body
-	parse_statement(&new_jump_blocks);
+	expect_statement(&new_jump_blocks);
+	case_size = new_jump_blocks.first_case;
 
 	// A continue inside of a switch belongs to the enclosing loop.
 	jump_blocks->block_continue = new_jump_blocks.block_continue;
@@ -224,14 +250,14 @@ int parse_selection_statement(struct jump_blocks *jump_blocks) {
 
 		ir_block_start(block_true);
 
-		parse_statement(jump_blocks);
+		expect_statement(jump_blocks);
 
 		if (TACCEPT(T_KELSE)) {
 			struct node *block_end = new_block();
 			ir_goto(block_end);
 			ir_block_start(block_false);
 
-			parse_statement(jump_blocks);
+			expect_statement(jump_blocks);
 
 			ir_goto(block_end);
 			ir_block_start(block_end);
@@ -266,7 +292,7 @@ static int parse_do_while_statement(struct jump_blocks *jump_blocks) {
 	struct jump_blocks new_jump_blocks = *jump_blocks;
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.block_continue = block_control;
-	parse_statement(&new_jump_blocks);
+	expect_statement(&new_jump_blocks);
 	propagate_labels(jump_blocks, &new_jump_blocks);
 
 	ir_goto(block_control);
@@ -336,7 +362,7 @@ static int parse_while_statement(struct jump_blocks *jump_blocks) {
 	struct jump_blocks new_jump_blocks = *jump_blocks;
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.block_continue = block_control;
-	parse_statement(&new_jump_blocks);
+	expect_statement(&new_jump_blocks);
 	propagate_labels(jump_blocks, &new_jump_blocks);
 
 	ir_goto(new_jump_blocks.block_continue);
@@ -417,7 +443,7 @@ static int parse_for_statement(struct jump_blocks *jump_blocks) {
 	struct jump_blocks new_jump_blocks = *jump_blocks;
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.block_continue = block_advance;
-	parse_statement(&new_jump_blocks);
+	expect_statement(&new_jump_blocks);
 	propagate_labels(jump_blocks, &new_jump_blocks);
 
 	ir_goto(block_advance);
@@ -442,7 +468,7 @@ struct type *current_ret_val = NULL;
 int parse_jump_statement(struct jump_blocks *jump_blocks) {
 	if (TACCEPT(T_KGOTO)) {
 		struct string_view label = T0->str;
-		TNEXT();
+		TEXPECT(T_IDENT);
 		TEXPECT(T_SEMI_COLON);
 		for (unsigned i = 0; i < function_scope.size; i++) {
 			if (sv_cmp(label, function_scope.labels[i].label)) {
@@ -467,6 +493,8 @@ int parse_jump_statement(struct jump_blocks *jump_blocks) {
 		ir_block_start(new_block());
 		return 1;
 	} else if (TACCEPT(T_KCONTINUE)) {
+		if (!jump_blocks->block_continue)
+			ERROR(T0->pos, "Continue statement outside of a loop");
 		struct node *step = new_block();
 		ir_goto(step);
 		ir_block_start(step);
@@ -476,6 +504,8 @@ int parse_jump_statement(struct jump_blocks *jump_blocks) {
 		TEXPECT(T_SEMI_COLON);
 		return 1;
 	} else if (TACCEPT(T_KBREAK)) {
+		if (!jump_blocks->block_break)
+			ERROR(T0->pos, "Break statement outside of a loop or switch");
 		struct node *step = new_block();
 		ir_goto(step);
 		ir_block_start(step);
@@ -548,6 +578,12 @@ void parse_function(struct string_view name, struct type *type, int arg_n, struc
 	struct jump_blocks jump_blocks = { 0 };
 	parse_compound_statement(&jump_blocks);
 
+	for (unsigned i = 0; i < function_scope.size; i++) {
+		struct string_view label = function_scope.labels[i].label;
+		if (!function_scope.labels[i].used)
+			ERROR(T0->pos, "Label %.*s is not defined", label.len, label.str);
+	}
+
 	if (sv_string_cmp(name, "main")) {
 		struct node *b = get_current_block();
 		if (!b->block_info.end) {
-- 
2.43.0


From 34d1b588ba23864fc216311f4a6c9e1cbea08747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:09 +0000
Subject: [PATCH 117/149] fix: diagnose incomplete _Generic, va_* and offsetof
 operands

---
 src/parser/expression.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 07cd8ba..b122d94 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -487,6 +487,12 @@ struct expr *expr_new(struct expr expr) {
 		decay_array(&expr.args[i]);
 	}
 
+	if ((expr.type == E_BUILTIN_VA_START && (!expr.va_start_.array || !expr.va_start_.last_param)) ||
+		(expr.type == E_BUILTIN_VA_COPY && (!expr.va_copy_.d || !expr.va_copy_.s)) ||
+		(expr.type == E_BUILTIN_VA_END && !expr.va_end_.v) ||
+		(expr.type == E_BUILTIN_VA_ARG && !expr.va_arg_.v))
+		ERROR(T0->pos, "Expected expression");
+
 	if (expr.type == E_BUILTIN_VA_COPY) {
 		decay_array(&expr.va_copy_.d);
 		decay_array(&expr.va_copy_.s);
@@ -759,19 +765,26 @@ static struct expr *parse_prefix(void) {
 		struct type *match_type = type_make_const(expr->data_type, 0);
 
 		struct expr *res = NULL;
-		int res_is_default = 0;
+		int res_is_default = 0, got_default = 0;
 
 		while (TACCEPT(T_COMMA)) {
 			int default_ = 0;
 			struct type *type = NULL;
 			if (TACCEPT(T_KDEFAULT)) {
-				res_is_default = 1;
+				if (got_default)
+					ERROR(T0->pos, "More than one default association in _Generic");
+				got_default = 1;
+				res_is_default = !res;
 				default_ = 1;
 			} else {
 				type = parse_type_name();
+				if (!type)
+					ERROR(T0->pos, "Expected type-name or default");
 			}
 			TEXPECT(T_COLON);
 			struct expr *rhs = parse_assignment_expression();
+			if (!rhs)
+				ERROR(T0->pos, "Expected expression.");
 			if (default_) {
 				if (!res)
 					res = rhs;
@@ -781,6 +794,7 @@ static struct expr *parse_prefix(void) {
 						ERROR(T0->pos, "More than one compatible type in _Generic association list, %s",
 							  strdup(dbg_type(type)));
 					res = rhs;
+					res_is_default = 0;
 				}
 			}
 		}
@@ -849,6 +863,8 @@ static struct expr *parse_prefix(void) {
 				}
 			});
 		expr = expr_dot_operator(expr, T0);
+		if (!expr)
+			ERROR(T0->pos, "Could not find member of name %s", dbg_token(T0));
 		TNEXT();
 
 		expr = parse_pratt_with_lhs(0, expr);
-- 
2.43.0


From 5fb74954515a2739d1ab9651066d51daaadce2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:54 +0000
Subject: [PATCH 118/149] fix: check the types of operands of unary, binary and
 conditional operators

---
 src/parser/expression.c | 59 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 59 insertions(+)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index b122d94..5a85f36 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -459,6 +459,64 @@ static void check_lvalue(struct expr *expr) {
 	}
 }
 
+static int is_scalar_type(struct type *type) {
+	return type_is_arithmetic(type) || type_is_pointer(type);
+}
+
+// See 6.5.3.3, 6.5.5 to 6.5.16.
+static void check_operand_types(struct expr *expr) {
+	struct type *lhs = num_args[expr->type] ? expr->args[0]->data_type : NULL,
+		*rhs = num_args[expr->type] > 1 ? expr->args[1]->data_type : NULL;
+	enum operator_type op;
+	int valid = 1;
+
+	switch (expr->type) {
+	case E_UNARY_OP:
+		valid = expr->unary_op == UOP_BNOT ? type_is_integer(lhs) : type_is_arithmetic(lhs);
+		break;
+
+	case E_CONDITIONAL:
+		valid = is_scalar_type(lhs);
+		break;
+
+	case E_BINARY_OP:
+	case E_ASSIGNMENT_OP:
+		op = expr->type == E_BINARY_OP ? expr->binary_op : expr->assignment_op.op;
+
+		switch (op) {
+		case OP_MOD: case OP_BXOR: case OP_BOR: case OP_BAND: case OP_LSHIFT: case OP_RSHIFT:
+			valid = type_is_integer(lhs) && type_is_integer(rhs);
+			break;
+
+		case OP_ADD: case OP_SUB:
+			if (type_is_pointer(lhs) && type_is_pointer(rhs))
+				valid = op == OP_SUB && expr->type == E_BINARY_OP;
+			else if (type_is_pointer(lhs))
+				valid = type_is_integer(rhs);
+			else if (type_is_pointer(rhs))
+				valid = type_is_integer(lhs) && op == OP_ADD && expr->type == E_BINARY_OP;
+			else
+				valid = type_is_arithmetic(lhs) && type_is_arithmetic(rhs);
+			break;
+
+		case OP_MUL: case OP_DIV:
+			valid = type_is_arithmetic(lhs) && type_is_arithmetic(rhs);
+			break;
+
+		default: // Comparisons
+			valid = is_scalar_type(lhs) && is_scalar_type(rhs);
+			break;
+		}
+		break;
+
+	default:
+		break;
+	}
+
+	if (!valid)
+		ERROR(T0->pos, "Invalid operand to operator, of type %s", strdup(dbg_type(lhs)));
+}
+
 static struct expr *expr_dot_operator(struct expr *lhs, struct token *name) {
 	int n = 0, *indices;
 	if (!type_search_member(lhs->data_type, name->str, &n, &indices))
@@ -530,6 +588,7 @@ struct expr *expr_new(struct expr expr) {
 		}
 	}
 	
+	check_operand_types(&expr);
 	cast_conditional(&expr);
 	fix_assignment_operators(&expr);
 	fix_binary_operator(&expr);
-- 
2.43.0


From 4faf1bebde9478bc74f51a73b18d34844b2b8ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:55 +0000
Subject: [PATCH 119/149] fix: diagnose functions returning arrays or functions
 and arrays of functions

---
 src/parser/declaration.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index bde9b0b..01bdc64 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -699,6 +699,10 @@ struct type *ast_to_type(const struct type_specifiers *ts, const struct type_qua
 			break;
 
 		case TAST_FUNCTION: {
+			if (type->type == TY_FUNCTION || type->type == TY_ARRAY ||
+				type->type == TY_INCOMPLETE_ARRAY || type->type == TY_VARIABLE_LENGTH_ARRAY)
+				ERROR(ast->pos, "Function can't return a function or an array");
+
 			struct type params = {
 				.type = TY_FUNCTION,
 				.function.is_variadic = ast->function.vararg,
@@ -716,6 +720,10 @@ struct type *ast_to_type(const struct type_specifiers *ts, const struct type_qua
 		} break;
 
 		case TAST_ARRAY: {
+			if (type->type == TY_FUNCTION || type->type == TY_INCOMPLETE_ARRAY ||
+				type == type_simple(ST_VOID))
+				ERROR(ast->pos, "Invalid element type of array");
+
 			switch (ast->array.type) {
 			case ARR_EMPTY: {
 				struct type params = {
-- 
2.43.0


From e786174bd783bebc39a3de7ccbac04874ade9f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:55 +0000
Subject: [PATCH 120/149] fix: [*] outside of a function prototype

---
 src/types.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/types.c b/src/types.c
index 8e2c967..6b83866 100644
--- a/src/types.c
+++ b/src/types.c
@@ -426,6 +426,8 @@ void type_evaluate_vla(struct type *type) {
 
 	if (type->type == TY_VARIABLE_LENGTH_ARRAY) {
 		if (!type->variable_length_array.is_evaluated) {
+			if (!type->variable_length_array.length_expr)
+				ERROR_NO_POS("[*] can only be used in a function prototype");
 			type->variable_length_array.length_var = expression_to_size_t(type->variable_length_array.length_expr);
 		}
 		type->variable_length_array.is_evaluated = 1;
-- 
2.43.0


From 4a20c9915588f66689f0d94c41bafc5741bb0d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:55 +0000
Subject: [PATCH 121/149] fix: diagnose duplicate members

---
 src/parser/declaration.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 01bdc64..f87b440 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -389,6 +389,24 @@ static int parse_static_assertion(void) {
 	return 1;
 }
 
+static void check_duplicate_members(struct struct_data *data) {
+	for (int i = 0; i < data->n; i++) {
+		struct field *a = data->fields + i;
+
+		for (int j = 0; j < data->n; j++) {
+			struct field *b = data->fields + j;
+			int n = 0, *indices = NULL;
+
+			if (i == j || !a->name.len)
+				continue;
+
+			if (b->name.len ? sv_cmp(a->name, b->name) :
+				(b->type->type == TY_STRUCT && type_search_member(b->type, a->name, &n, &indices)))
+				ERROR(T0->pos, "Duplicate member %.*s", a->name.len, a->name.str);
+		}
+	}
+}
+
 int parse_struct(struct type_specifiers *ts) {
 	int is_union = 0, is_packed = 0;
 	if (TACCEPT(T_KSTRUCT))
@@ -539,6 +557,7 @@ int parse_struct(struct type_specifiers *ts) {
 
 		calculate_offsets(data);
 		type_remove_unnamed(data);
+		check_duplicate_members(data);
 
 		struct type params = {
 			.type = TY_STRUCT,
-- 
2.43.0


From ff5d62105f80efeceaee3856e5fbd29ed70ac5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:56 +0000
Subject: [PATCH 122/149] fix: diagnose redefinitions of objects and functions

---
 src/parser/declaration.c     | 6 ++++++
 src/parser/function_parser.c | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index f87b440..df94a00 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1397,6 +1397,12 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 	
 	int has_init = TACCEPT(T_A);
 
+	// Objects with no linkage can only be declared once, see 6.7p3 and 6.9p3.
+	if (is_redeclaration && type->type != TY_FUNCTION &&
+		(external ? (prev_definition && has_init) :
+		 (!s.scs.extern_n || prev_definition)))
+		ERROR(T0->pos, "Redefinition of %.*s", name.len, name.str);
+
 	// Handle function definitions first, since they differ a bit from the others.
 	if (type->type == TY_FUNCTION) {
 		if (has_init)
diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 3f51b8c..6edad15 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -561,7 +561,10 @@ void parse_function(struct string_view name, struct type *type, int arg_n, struc
 
 	if (!symbol)
 		symbol = symbols_add_identifier_global(name);
+	else if (symbol->has_definition || symbol->type != IDENT_LABEL || !type_make_composite(type, symbol->label.type))
+		ERROR(T0->pos, "Redefinition of %.*s", name.len, name.str);
 
+	symbol->has_definition = 1;
 	symbol->is_global = global;
 	symbol->type = IDENT_LABEL;
 	symbol->label.type = type;
-- 
2.43.0


From c446c163416f75e23ac241f565f902fd1d53c4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:56 +0000
Subject: [PATCH 123/149] fix: diagnose static assertions that are not integer
 constants

---
 src/parser/declaration.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index df94a00..6a4a053 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -360,13 +360,15 @@ static int parse_static_assertion(void) {
 		return 0;
 
 	TEXPECT(T_LPAR);
-	struct expr *expr = EXPR_BINARY_OP(OP_EQUAL, EXPR_INT(0), parse_assignment_expression());
+	struct expr *value = parse_assignment_expression();
+	if (!value || !type_is_integer(value->data_type))
+		ERROR(T0->pos, "Expected integer expression in _Static_assert.");
+
+	struct expr *expr = EXPR_BINARY_OP(OP_EQUAL, EXPR_INT(0), value);
 	struct constant *constant = expression_to_constant(expr);
-	if (!constant)
+	if (!constant || constant->type != CONSTANT_TYPE)
 		ERROR(T0->pos, "Expresison in _Static_assert must be constant.");
 
-	assert(constant->type == CONSTANT_TYPE);
-
 	if (!type_is_simple(constant->data_type, ST_INT))
 		ERROR(T0->pos, "Invalid _Static_assert type: %s\n", dbg_type(constant->data_type));
 
-- 
2.43.0


From d6008b9facde9edf2733c1c7548423746203844c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:21 +0000
Subject: [PATCH 124/149] fix: diagnose identifiers redeclared as a different
 kind of symbol

---
 src/parser/declaration.c | 9 ++++++++-
 src/parser/symbols.c     | 7 +++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 6a4a053..59132ee 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1375,7 +1375,12 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 	}
 
 	if (s.scs.typedef_n) {
-		symbols_add_typedef(name)->data_type = type;
+		struct symbol_typedef *def = symbols_add_typedef(name);
+		if (def->data_type && !type_has_variable_size(type) && def->data_type != type &&
+			!type_make_composite(def->data_type, type))
+			ERROR(T0->pos, "%.*s has conflicting types: %s and %s\n", name.len, name.str,
+				  strdup(dbg_type(def->data_type)), strdup(dbg_type(type)));
+		def->data_type = type;
 		return 1;
 	}
 
@@ -1384,6 +1389,8 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 	int prev_definition = 0, is_redeclaration = symbol != NULL;
 
 	if (symbol) {
+		if (symbol->type == IDENT_CONSTANT)
+			ERROR(T0->pos, "%.*s is already declared as an enumerator", name.len, name.str);
 		prev_definition = symbol->has_definition;
 		struct type *prev_type = symbols_get_identifier_type(symbol);
 		struct type *composite_type = type_make_composite(type, prev_type);
diff --git a/src/parser/symbols.c b/src/parser/symbols.c
index 689c693..4b0c23d 100644
--- a/src/parser/symbols.c
+++ b/src/parser/symbols.c
@@ -170,6 +170,9 @@ struct symbol_identifier *symbols_add_identifier(struct string_view name) {
 		// Anonymous identifier.
 		return ALLOC((struct symbol_identifier) { 0 });
 	}
+	if (symbols_get_in_current_scope(ENTRY_TYPEDEF, name))
+		ERROR_NO_POS("%.*s is already declared as a type in the same scope.", name.len, name.str);
+
 	struct table_entry *entry = symbols_add(ENTRY_IDENTIFIER, name);
 	entry->identifier_data = ALLOC((struct symbol_identifier) { 0 });
 	return entry->identifier_data;
@@ -228,6 +231,10 @@ struct symbol_struct *symbols_get_struct_in_current_scope(struct string_view nam
 
 // Typedef help functions.
 struct symbol_typedef *symbols_add_typedef(struct string_view name) {
+	// They share a name space.
+	if (symbols_get_in_current_scope(ENTRY_IDENTIFIER, name))
+		ERROR_NO_POS("%.*s is already declared in the same scope.", name.len, name.str);
+
 	struct entry_id id = {ENTRY_TYPEDEF, name};
 	struct table_entry *entry = get_entry(id, 0);
 
-- 
2.43.0


From 4440c8623eaa2697e9dd9a0373bed74dadf8fbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:21 +0000
Subject: [PATCH 125/149] fix: diagnose conversions between structs and other
 types

---
 src/parser/expression.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 5a85f36..10971ca 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -1350,11 +1350,27 @@ int evaluate_constant_expression(struct expr *expr,
 	return 1;
 }
 
+// See 6.5.4 and 6.5.16.1.
+static int is_convertible(struct type *from, struct type *to) {
+	if (type_make_const(from, 0) == type_make_const(to, 0) || to == type_simple(ST_VOID))
+		return 1;
+
+	if ((type_is_pointer(from) && type_is_floating(to)) ||
+		(type_is_floating(from) && type_is_pointer(to)))
+		return 0;
+
+	return is_scalar_type(from) && is_scalar_type(to);
+}
+
 struct expr *expression_cast(struct expr *expr, struct type *type) {
 	if (!expr)
 		ERROR(T0->pos, "Expected expression, got %s", dbg_token(T0));
 
 	decay_array(&expr);
+
+	if (!is_convertible(expr->data_type, type))
+		ERROR(T0->pos, "Can't convert %s to %s", strdup(dbg_type(expr->data_type)), strdup(dbg_type(type)));
+
 	return (expr->data_type == type) ? expr :
 		expr_new((struct expr) {
 				.type = E_CAST,
-- 
2.43.0


From 1e31958704b1a49003317fbbd68dd63717f6bdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:21 +0000
Subject: [PATCH 126/149] fix: diagnose widths, indices and alignments that are
 not integers

---
 src/parser/declaration.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 59132ee..a70e2a6 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -466,8 +466,11 @@ int parse_struct(struct type_specifiers *ts) {
 				if (TACCEPT(T_COLON)) {
 					found_one = 1; // Bit-fields can't declare anonymous structs.
 
-					type = ast_to_type(&s.ts, &s.tq, NULL, NULL, 0);
+					if (needs_bitfield)
+						type = ast_to_type(&s.ts, &s.tq, NULL, NULL, 0);
 					struct expr *bitfield_expr = parse_assignment_expression();
+					if (bitfield_expr && !type_is_integer(bitfield_expr->data_type))
+						ERROR(T0->pos, "Width of bit-field must be an integer");
 					struct constant *c = expression_to_constant(
 						expression_cast(bitfield_expr, type_simple(ST_INT)));
 					if (!c)
@@ -1161,7 +1164,11 @@ static void parse_brace_initializer(struct type *type, struct initializer *init)
 					if (current_type->type != TY_ARRAY && current_type->type != TY_INCOMPLETE_ARRAY)
 						ERROR(T0->pos, "Array designator in initializer to %s.", dbg_type(current_type));
 
-					struct expr *expr = expression_cast(parse_expression(), type_simple(ST_ULLONG));
+					struct expr *index = parse_expression();
+					if (index && !type_is_integer(index->data_type))
+						ERROR(T0->pos, "Array designator must be an integer");
+
+					struct expr *expr = expression_cast(index, type_simple(ST_ULLONG));
 					struct constant *c = expression_to_constant(expr);
 					if (!c || c->type != CONSTANT_TYPE)
 						ERROR(T0->pos, "Expected constant expression in array designator.");
-- 
2.43.0


From c9a5abf3f8ccc0646b880c0840fb975a99f437ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:50 +0000
Subject: [PATCH 127/149] fix: diagnose compound assignments and increments of
 const objects

---
 src/parser/expression.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 10971ca..8502774 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -404,12 +404,29 @@ static void fix_assignment_operators(struct expr *expr) {
 int evaluate_constant_expression(struct expr *expr,
  								 struct constant *constant);
 
+static int has_const_member(struct type *type) {
+	if (type->is_const)
+		return 1;
+
+	if (type->type == TY_ARRAY)
+		return has_const_member(type->children[0]);
+
+	if (type->type != TY_STRUCT)
+		return 0;
+
+	for (int i = 0; i < type->struct_data->n; i++) {
+		if (has_const_member(type->struct_data->fields[i].type))
+			return 1;
+	}
+
+	return 0;
+}
+
 static void check_const_correctness(struct expr *expr) {
 	switch (expr->type) {
 	case E_ASSIGNMENT:
 	case E_ASSIGNMENT_OP:
-	case E_ASSIGNMENT_POINTER:
-		if (expr->args[0]->data_type->is_const) {
+		if (has_const_member(expr->args[0]->data_type)) {
 			ICE("Can't modify constant variable");
 		}
 		break;
@@ -539,6 +556,7 @@ struct expr *expr_new(struct expr expr) {
 	}
 
 	check_lvalue(&expr);
+	check_const_correctness(&expr);
 
 	for (int i = dont_decay_ptr[expr.type];
 		 i < num_args[expr.type]; i++) {
@@ -605,8 +623,6 @@ struct expr *expr_new(struct expr expr) {
 		}
 	}
 
-	check_const_correctness(&expr);
-
 	if (!expr.pos.path)
 		expr.pos = T0->pos; // If no position is supplied, at least take something close to it.
 
-- 
2.43.0


From db62c81a828153c7f49d6d6f6eea67ad2d990c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:50 +0000
Subject: [PATCH 128/149] fix: casts and comma expressions are not lvalues

---
 src/parser/expression.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 8502774..ffd720d 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -687,8 +687,10 @@ static struct expr *parse_prefix(void) {
 						.compound_literal = { cast_type, init }
 					});
 			} else {
-				struct expr *rhs = parse_operand();
-				return expression_cast(rhs, cast_type);
+				struct expr *rhs = parse_operand(),
+					*cast = expression_cast(rhs, cast_type);
+				// The result is never an lvalue or a bit-field, even if the type stays the same.
+				return cast == rhs && is_lvalue(rhs) ? EXPR_ARGS(E_CONST_REMOVE, rhs) : cast;
 			}
 		} else {
 			struct expr *expr = parse_pratt(0);
@@ -1347,6 +1349,10 @@ int evaluate_constant_expression(struct expr *expr,
 		if (!evaluate_constant_expression(expr->args[1], &rhs))
 			return 0;
 
+		// Not an lvalue.
+		if (rhs.type == CONSTANT_LABEL)
+			return 0;
+
 		*constant = rhs;
 	} break;
 
-- 
2.43.0


From 90c52efb0286bfdf07ed92a1b9872310b8f63a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:50 +0000
Subject: [PATCH 129/149] fix: check the types of assigned values and arguments

---
 src/parser/expression.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index ffd720d..d61a068 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -534,6 +534,8 @@ static void check_operand_types(struct expr *expr) {
 		ERROR(T0->pos, "Invalid operand to operator, of type %s", strdup(dbg_type(lhs)));
 }
 
+static int is_convertible(struct type *from, struct type *to);
+
 static struct expr *expr_dot_operator(struct expr *lhs, struct token *name) {
 	int n = 0, *indices;
 	if (!type_search_member(lhs->data_type, name->str, &n, &indices))
@@ -601,12 +603,22 @@ struct expr *expr_new(struct expr expr) {
 			ERROR(T0->pos, "Wrong number of arguments.");
 		}
 
+		for (int i = 0; i < named_arguments_count; i++) {
+			if (!is_convertible(expr.call.args[i]->data_type, signature->children[i + 1]))
+				ERROR(T0->pos, "Can't pass %s as an argument of type %s", strdup(dbg_type(expr.call.args[i]->data_type)),
+					  strdup(dbg_type(signature->children[i + 1])));
+		}
+
 		for (int i = named_arguments_count; i < expr.call.n_args; i++) {
 			do_default_argument_promotion(&expr.call.args[i]);
 		}
 	}
 	
 	check_operand_types(&expr);
+	if (expr.type == E_ASSIGNMENT && !is_convertible(expr.args[1]->data_type, expr.args[0]->data_type))
+		ERROR(T0->pos, "Can't assign %s to %s", strdup(dbg_type(expr.args[1]->data_type)),
+			  strdup(dbg_type(expr.args[0]->data_type)));
+
 	cast_conditional(&expr);
 	fix_assignment_operators(&expr);
 	fix_binary_operator(&expr);
-- 
2.43.0


From 68678e22e1fd3f5392807823940e94a37509b20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:08 +0000
Subject: [PATCH 130/149] fix: diagnose incomplete types of objects, members
 and operands of sizeof

---
 src/parser/declaration.c | 13 +++++++++++++
 src/types.c              | 11 +++++++++++
 src/types.h              |  1 +
 3 files changed, 25 insertions(+)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index a70e2a6..4764ab7 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -491,6 +491,10 @@ int parse_struct(struct type_specifiers *ts) {
 					break;
 				}
 
+				if (type->type == TY_FUNCTION || type->type == TY_VARIABLE_LENGTH_ARRAY ||
+					(type_is_incomplete(type) && type->type != TY_INCOMPLETE_ARRAY))
+					ERROR(T0->pos, "Invalid type of member: %s", dbg_type(type));
+
 				ADD_ELEMENT(fields_size, fields_cap, fields) = (struct field) {
 					.type = type,
 					.name = name,
@@ -1436,6 +1440,9 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 		return 1;
 	}
 
+	if (type_is_simple(type, ST_VOID) && !s.scs.extern_n)
+		ERROR(T0->pos, "%.*s has type void", name.len, name.str);
+
 	int definition_is_static = 0;
 	int has_definition = 0;
 	int is_global = 0;
@@ -1488,6 +1495,9 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 		ADD_ELEMENT(potentially_tentative.size, potentially_tentative.cap, potentially_tentative.names) = name;
 
 	if (has_definition) {
+		if (type_is_incomplete(type) && !(has_init && type->type == TY_INCOMPLETE_ARRAY))
+			ERROR(T0->pos, "%.*s has incomplete type %s", name.len, name.str, dbg_type(type));
+
 		if (definition_is_static) {
 			symbol->type = IDENT_LABEL;
 
@@ -1577,6 +1587,9 @@ void generate_tentative_definitions(void) {
 				symbol->label.type = type;
 			}
 
+			if (type_is_incomplete(type))
+				ERROR_NO_POS("%.*s has incomplete type %s", name.len, name.str, dbg_type(type));
+
 			data_register_static_var(name, type, (struct initializer) { 0 }, symbol->is_global, symbol->alignment);
 			symbol->is_tentative = 0;
 		}
diff --git a/src/types.c b/src/types.c
index 6b83866..862bf61 100644
--- a/src/types.c
+++ b/src/types.c
@@ -387,7 +387,18 @@ int type_is_aggregate(struct type *type) {
 		type->type == TY_INCOMPLETE_ARRAY;
 }
 
+int type_is_incomplete(struct type *type) {
+	if (type->type == TY_ARRAY)
+		return type_is_incomplete(type->children[0]);
+
+	return type->type == TY_INCOMPLETE_ARRAY || type_is_simple(type, ST_VOID) ||
+		(type->type == TY_STRUCT && !type->struct_data->is_complete);
+}
+
 struct expr *type_sizeof(struct type *type) {
+	if (type_is_incomplete(type) && !type_is_simple(type, ST_VOID))
+		ERROR_NO_POS("Size of incomplete type %s", dbg_type(type));
+
 	if (type_has_variable_size(type)) {
 		switch (type->type) {
 		case TY_VARIABLE_LENGTH_ARRAY:
diff --git a/src/types.h b/src/types.h
index bec4ea8..47d5c20 100644
--- a/src/types.h
+++ b/src/types.h
@@ -162,6 +162,7 @@ void type_remove_unnamed(struct struct_data *data);
 int type_has_variable_size(struct type *type);
 
 struct expr;
+int type_is_incomplete(struct type *type);
 struct expr *type_sizeof(struct type *type);
 struct expr *type_alignof(struct type *type);
 
-- 
2.43.0


From 7290875f5348199b69b969768a710d548f2d7879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:09 +0000
Subject: [PATCH 131/149] fix: diagnose taking the address of members of
 register structs and elements of register arrays

---
 src/parser/expression.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index d61a068..8c4b54d 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -466,6 +466,11 @@ static void check_lvalue(struct expr *expr) {
 			ERROR(T0->pos, "Can't assign to an expression that is not a modifiable lvalue.");
 	} break;
 
+	case E_ARRAY_PTR_DECAY:
+		if (expr->args[0]->type == E_SYMBOL && expr->args[0]->symbol->is_register)
+			ERROR(T0->pos, "Taking address of register variable is not allowed.");
+		break;
+
 	case E_ADDRESS_OF:
 		if (!is_lvalue(expr->args[0]))
 			ERROR(T0->pos, "Can't take the address of an expression that is not an lvalue.");
@@ -679,6 +684,13 @@ static void parse_call_parameters(struct expr ***args, int *n_args) {
 struct expr *parse_pratt(int precedence);
 struct expr *parse_pratt_with_lhs(int precedence, struct expr *lhs);
 
+static int is_register(struct expr *expr) {
+	while (expr->type == E_DOT_OPERATOR)
+		expr = expr->member.lhs;
+
+	return expr->type == E_SYMBOL && expr->symbol->is_register;
+}
+
 static struct expr *parse_operand(void) {
 	struct expr *expr = parse_pratt(PREFIX_PREC);
 	if (!expr)
@@ -729,7 +741,7 @@ static struct expr *parse_prefix(void) {
 	} else if (TACCEPT(T_AMP)) {
 		struct position pos = T0->pos;
 		struct expr *rhs = parse_operand();
-		if ((rhs->type == E_VARIABLE && rhs->variable.is_register) ||
+		if (is_register(rhs) || (rhs->type == E_VARIABLE && rhs->variable.is_register) ||
 			(rhs->type == E_SYMBOL && rhs->symbol->is_register))
 			ERROR(pos, "Taking address of register variable is not allowed.");
 		return EXPR_ARGS(E_ADDRESS_OF, rhs);
-- 
2.43.0


From 188aa30e53310928700c8a4f1bbecc72c2adae84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:09 +0000
Subject: [PATCH 132/149] fix: diagnose more invalid combinations of
 declaration specifiers

---
 src/parser/declaration.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 4764ab7..52f2037 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -232,6 +232,9 @@ static int parse_specifiers(struct type_specifiers *ts,
 	while (parse_specifier(ts, scs, tq, fs, as, &got_ts)) {
 		matched = 1;
 	}
+
+	if (scs && scs->typedef_n + scs->extern_n + scs->static_n + scs->auto_n + scs->register_n > 1)
+		ERROR(T0->pos, "More than one storage class specifier");
 	return matched;
 }
 
@@ -473,7 +476,7 @@ int parse_struct(struct type_specifiers *ts) {
 						ERROR(T0->pos, "Width of bit-field must be an integer");
 					struct constant *c = expression_to_constant(
 						expression_cast(bitfield_expr, type_simple(ST_INT)));
-					if (!c)
+					if (!c || c->type != CONSTANT_TYPE)
 						ERROR(T0->pos, "Bit-field must be a constant expression");
 					if (!type_is_simple(c->data_type, ST_INT))
 						ERROR(T0->pos, "Bit-field must an integer");
@@ -690,7 +693,7 @@ static struct type *specifiers_to_type(const struct type_specifiers *ts) {
 	SPEC(ST_LDOUBLE_COMPLEX, TSF_DOUBLE | TSF_LONG1 | TSF_COMPLEX);
 #undef SPEC
 
-	if (ts->data_type)
+	if (ts->data_type && !ts->specifiers)
 		return ts->data_type;
 
 	ERROR(ts->pos, "Invalid type %X", ts->specifiers);
@@ -761,6 +764,9 @@ struct type *ast_to_type(const struct type_specifiers *ts, const struct type_qua
 				type = type_create(&params, &type);
 			} break;
 			case ARR_EXPRESSION: {
+				if (!type_is_integer(ast->array.expr->data_type))
+					ERROR(ast->pos, "Size of array must be an integer");
+
 				struct constant *unconverted_length;
 				if ((unconverted_length = expression_to_constant(ast->array.expr)) &&
 					unconverted_length->type == CONSTANT_TYPE) {
@@ -850,6 +856,8 @@ static struct parameter_list parse_parameter_list(void) {
 		struct string_view name = { 0 };
 		struct type *type = ast_to_type(&s.ts, &s.tq, ast, &name, 1);
 		type = type_adjust_parameter(type);
+		if (type_is_simple(type, ST_VOID))
+			ERROR(T0->pos, "Parameter has type void");
 		ret.types[ret.n - 1] = type;
 
 		ret.arguments = cc_realloc(ret.arguments, ret.n * sizeof(*ret.arguments));
-- 
2.43.0


From 884e710780733b0155080f090f41fd09e5e900d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:22 +0000
Subject: [PATCH 133/149] fix: a type name and other type specifiers do not
 combine

---
 src/parser/declaration.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 52f2037..b7de505 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -647,6 +647,12 @@ static struct type_ast *type_ast_new(struct type_ast ast) {
 }
 
 static struct type *specifiers_to_type(const struct type_specifiers *ts) {
+	if (ts->data_type) {
+		if (ts->specifiers)
+			ERROR(ts->pos, "Invalid combination of type specifiers");
+		return ts->data_type;
+	}
+
 #define SPEC(A, B) if (ts->specifiers == (B)) return type_simple(A);
 	SPEC(ST_VOID, TSF_VOID);
 	SPEC(ST_CHAR, TSF_CHAR);
@@ -693,9 +699,6 @@ static struct type *specifiers_to_type(const struct type_specifiers *ts) {
 	SPEC(ST_LDOUBLE_COMPLEX, TSF_DOUBLE | TSF_LONG1 | TSF_COMPLEX);
 #undef SPEC
 
-	if (ts->data_type && !ts->specifiers)
-		return ts->data_type;
-
 	ERROR(ts->pos, "Invalid type %X", ts->specifiers);
 }
 
-- 
2.43.0


From 826734baa925f806584129ba91e99d6ca8f56802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:22 +0000
Subject: [PATCH 134/149] fix: elements of arrays in register structs have no
 address

---
 src/parser/expression.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 8c4b54d..e4fddb7 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -435,6 +435,13 @@ static void check_const_correctness(struct expr *expr) {
 	}
 }
 
+static int is_register(struct expr *expr) {
+	while (expr->type == E_DOT_OPERATOR)
+		expr = expr->member.lhs;
+
+	return expr->type == E_SYMBOL && expr->symbol->is_register;
+}
+
 static int is_lvalue(struct expr *expr) {
 	switch (expr->type) {
 	case E_SYMBOL:
@@ -467,7 +474,7 @@ static void check_lvalue(struct expr *expr) {
 	} break;
 
 	case E_ARRAY_PTR_DECAY:
-		if (expr->args[0]->type == E_SYMBOL && expr->args[0]->symbol->is_register)
+		if (is_register(expr->args[0]))
 			ERROR(T0->pos, "Taking address of register variable is not allowed.");
 		break;
 
@@ -684,13 +691,6 @@ static void parse_call_parameters(struct expr ***args, int *n_args) {
 struct expr *parse_pratt(int precedence);
 struct expr *parse_pratt_with_lhs(int precedence, struct expr *lhs);
 
-static int is_register(struct expr *expr) {
-	while (expr->type == E_DOT_OPERATOR)
-		expr = expr->member.lhs;
-
-	return expr->type == E_SYMBOL && expr->symbol->is_register;
-}
-
 static struct expr *parse_operand(void) {
 	struct expr *expr = parse_pratt(PREFIX_PREC);
 	if (!expr)
-- 
2.43.0


From 39910fc0d00c40541eac2797a9913118f7f7425d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:09 +0000
Subject: [PATCH 135/149] fix: several struct, union, enum or typedef names do
 not combine

---
 src/parser/declaration.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index b7de505..dc67e6d 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -139,12 +139,10 @@ static int parse_specifier(struct type_specifiers *ts,
 			return 1;
 		}
 
-		if (parse_struct(ts)) {
-			*got_ts = 1;
-			return 1;
-		}
-
-		if (parse_enum(ts)) {
+		struct type *prev_type = ts->data_type;
+		if (parse_struct(ts) || parse_enum(ts)) {
+			if (prev_type)
+				ERROR(ts->pos, "Invalid combination of type specifiers");
 			*got_ts = 1;
 			return 1;
 		}
-- 
2.43.0


From 9803f983344f4f8e9386764491324e224401b481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:39 +0000
Subject: [PATCH 136/149] fix: diagnose sizeof of bit-fields

---
 src/parser/expression.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index e4fddb7..57dcd6d 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -762,10 +762,14 @@ static struct expr *parse_prefix(void) {
 				}
 			} else {
 				t_push(t);
-				type = parse_operand()->data_type;
-			} 
-		} else {
-			type = parse_operand()->data_type;
+			}
+		}
+
+		if (!type) {
+			struct expr *operand = parse_operand();
+			if (get_expression_bitfield(operand) != -1)
+				ERROR(T0->pos, "Can't take the size of a bit-field");
+			type = operand->data_type;
 		}
 
 		return type_sizeof(type);
-- 
2.43.0


From dad9fd4f5071d543a3c2cdeb2b59461fc2fd0849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:39 +0000
Subject: [PATCH 137/149] fix: storage class specifiers of parameters

---
 src/parser/declaration.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index dc67e6d..4fb8951 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -867,6 +867,10 @@ static struct parameter_list parse_parameter_list(void) {
 								   ? (struct string_view) { 0 }
 								   : name);
 
+		if (s.scs.typedef_n || s.scs.extern_n || s.scs.static_n || s.scs.auto_n)
+			ERROR(T0->pos, "Invalid storage class specifier of parameter");
+
+		ident->is_register = s.scs.register_n > 0;
 		ident->type = IDENT_PARAMETER;
 		ident->parameter.type = type;
 		ret.arguments[ret.n - 1] = ident;
-- 
2.43.0


From c463cd19a8bedc9cf2651754575c508df40dc4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:39 +0000
Subject: [PATCH 138/149] fix: diagnose duplicate members in different unnamed
 structs

---
 src/parser/declaration.c | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 4fb8951..a2802f5 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -392,21 +392,29 @@ static int parse_static_assertion(void) {
 	return 1;
 }
 
-static void check_duplicate_members(struct struct_data *data) {
+static int count_members(struct struct_data *data, struct string_view name) {
+	int count = 0;
+
 	for (int i = 0; i < data->n; i++) {
-		struct field *a = data->fields + i;
+		struct field *field = data->fields + i;
 
-		for (int j = 0; j < data->n; j++) {
-			struct field *b = data->fields + j;
-			int n = 0, *indices = NULL;
+		if (field->name.len)
+			count += sv_cmp(field->name, name) ? 1 : 0;
+		else if (field->type->type == TY_STRUCT)
+			count += count_members(field->type->struct_data, name);
+	}
 
-			if (i == j || !a->name.len)
-				continue;
+	return count;
+}
 
-			if (b->name.len ? sv_cmp(a->name, b->name) :
-				(b->type->type == TY_STRUCT && type_search_member(b->type, a->name, &n, &indices)))
-				ERROR(T0->pos, "Duplicate member %.*s", a->name.len, a->name.str);
-		}
+static void check_duplicate_members(struct struct_data *data, struct struct_data *parent) {
+	for (int i = 0; i < data->n; i++) {
+		struct field *field = data->fields + i;
+
+		if (!field->name.len && field->type->type == TY_STRUCT)
+			check_duplicate_members(field->type->struct_data, parent);
+		else if (field->name.len && count_members(parent, field->name) > 1)
+			ERROR(T0->pos, "Duplicate member %.*s", field->name.len, field->name.str);
 	}
 }
 
@@ -567,7 +575,7 @@ int parse_struct(struct type_specifiers *ts) {
 
 		calculate_offsets(data);
 		type_remove_unnamed(data);
-		check_duplicate_members(data);
+		check_duplicate_members(data, data);
 
 		struct type params = {
 			.type = TY_STRUCT,
-- 
2.43.0


From 626d2c04a748bd1908d2be61df9729b4297d9652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:09 +0000
Subject: [PATCH 139/149] fix: undefinitions on the command line when only
 preprocessing

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index a17e22f..b7bdb76 100644
--- a/src/main.c
+++ b/src/main.c
@@ -301,7 +301,7 @@ static void preprocess_file(const char *path, struct arguments *arguments) {
 		add_definition(arguments->defines[i]);
 
 	for (int i = 0; i < arguments->n_undefine; i++)
-		NOTIMP();
+		define_remove(arguments->undefines[i]);
 
 	if (arguments->flag_MD)
 		preprocessor_write_dependencies();
-- 
2.43.0


From 3d2c626cd06fec7c312efc3febec3a9b294da8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:09 +0000
Subject: [PATCH 140/149] fix: diagnose unknown and incomplete options

---
 src/arguments.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/arguments.c b/src/arguments.c
index 322fd12..49f8e1c 100644
--- a/src/arguments.c
+++ b/src/arguments.c
@@ -69,6 +69,7 @@ struct arguments arguments_parse(int argc, char **argv) {
 				case 'D': ret.flag_MD = 1; cont = 0; break;
 				case 'T': next_state = S_MT; break;
 				case 'F': next_state = S_MF; break;
+				default: ERROR_NO_POS("Unrecognized flag: \"%s\"", argv[i - 1]);
 				}
 
 				arg++;
@@ -77,7 +78,7 @@ struct arguments arguments_parse(int argc, char **argv) {
 					if (cont) {
 						next_arg = arg;
 					} else if (!ignore) {
-						ERROR_NO_POS("Unrecognized flag: \"%s\"", argv[i]);
+						ERROR_NO_POS("Unrecognized flag: \"%s\"", argv[i - 1]);
 					}
 				}
 			} else if (arg[0] == '-' && arg[1] == 's' && arg[2] == 't' && arg[3] == 'd') {
@@ -103,6 +104,7 @@ struct arguments arguments_parse(int argc, char **argv) {
 				case 'L': next_state = S_LIBRARY_DIR; break;
 				case 'l': next_state = S_LIBRARY; break;
 				case 'f': next_state = S_FLAG; break;
+				default: ERROR_NO_POS("Unrecognized flag: \"%s\"", argv[i - 1]);
 				}
 
 				arg++;
@@ -111,7 +113,7 @@ struct arguments arguments_parse(int argc, char **argv) {
 					if (cont) {
 						next_arg = arg;
 					} else if (!ignore) {
-						ERROR_NO_POS("Unrecognized flag: \"%s\"", argv[i]);
+						ERROR_NO_POS("Unrecognized flag: \"%s\"", argv[i - 1]);
 					}
 				}
 			} else {
@@ -142,6 +144,9 @@ struct arguments arguments_parse(int argc, char **argv) {
 		state = next_state;
 	}
 
+	if (state != S_OPERAND)
+		ERROR_NO_POS("Missing operand of flag: \"%s\"", argv[argc - 1]);
+
 	ret.n_operand = operand_size;
 	ret.operands = operands;
 
-- 
2.43.0


From d5287efee07211657045f87963c84a513ed31640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:10 +0000
Subject: [PATCH 141/149] fix: short names of input files

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index b7bdb76..693bc2d 100644
--- a/src/main.c
+++ b/src/main.c
@@ -63,7 +63,7 @@ static struct string_view get_basename(const char *path) {
 }
 
 static int is_ext_file(struct string_view view, char ext) {
-	return view.str[view.len - 2] == '.' &&
+	return view.len >= 2 && view.str[view.len - 2] == '.' &&
 		view.str[view.len - 1] == ext;
 }
 
-- 
2.43.0


From 91c03981bd60768062694cff0dd7035e9f34e412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:10 +0000
Subject: [PATCH 142/149] fix: dependencies without a file to write them to

---
 src/main.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.c b/src/main.c
index 693bc2d..bcd9b7f 100644
--- a/src/main.c
+++ b/src/main.c
@@ -216,6 +216,8 @@ static void compile_file(const char *path,
 			mf_path = arguments->mf_path;
 		} else {
 			mf_path = dependency_path_from_outfile(outfile);
+			if (!mf_path)
+				ERROR_NO_POS("No file name to write the dependencies of %s to.", outfile);
 		}
 
 		preprocessor_finish_writing_dependencies(mt_path, mf_path);
-- 
2.43.0


From db49955e78a6aa60d468e48b1cf0e563b02fb5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:01 +0000
Subject: [PATCH 143/149] fix: limit the depth of inclusion

---
 src/preprocessor/directives.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index 26cbb35..58f8ac1 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -83,6 +83,12 @@ void directiver_reset(void) {
 }
 
 void directiver_push_input(const char *path, int system) {
+	int depth = 0;
+	for (struct tokenized_file *file = current_file; file; file = file->parent)
+		depth++;
+	if (depth > 200)
+		ICE("Inclusion of \"%s\" is nested too deeply", path);
+
 	const char *parent_path = current_file ? current_file->path : ".";
 	struct input new_input = input_open(parent_path, path, system);
 
-- 
2.43.0


From 04bc020fa28fd318ced59466cea8aaf1f6b0d3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:55 +0000
Subject: [PATCH 144/149] fix: includes at the end of an included file are
 relative to that file

---
 src/preprocessor/directives.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index 58f8ac1..997ac45 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -426,13 +426,22 @@ static struct result evaluate_until_newline(void) {
 	return result;
 }
 
+static int is_at_end_of_file(void) {
+	return !current_file->pushed_idx && current_file->token_idx == current_file->tokens.size;
+}
+
 static struct string_view get_include_path(struct token dir, struct token t, int *system) {
 	buffer.size = 0;
-	while (!t.first_of_line) {
+	int at_end = 0;
+	while (!t.first_of_line && !at_end) {
 		token_list_add(&buffer, t);
-		t = next();
+		// Looking further would leave the current file, and the path is relative to it.
+		at_end = is_at_end_of_file();
+		if (!at_end)
+			t = next();
 	}
-	push(t);
+	if (!at_end)
+		push(t);
 
 	expand_token_list(&buffer);
 
-- 
2.43.0


From 010d3e4e55ef2d83876bbd10e085399ab6d8d240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:59 +0000
Subject: [PATCH 145/149] fix: do not read past the end of truncated UTF-8
 sequences

---
 src/preprocessor/string_concat.c | 2 +-
 src/utf8.c                       | 9 ++++++++-
 src/utf8.h                       | 3 ++-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/preprocessor/string_concat.c b/src/preprocessor/string_concat.c
index 13074b7..3c53c04 100644
--- a/src/preprocessor/string_concat.c
+++ b/src/preprocessor/string_concat.c
@@ -47,7 +47,7 @@ static uint32_t take_utf8(struct string_view *input) {
 	assert(input->len);
 
 	const char *advance = input->str;
-	uint32_t codepoint = utf8_decode(&advance);
+	uint32_t codepoint = utf8_decode(&advance, input->len);
 	sv_tail(input, advance - input->str);
 
 	return codepoint;
diff --git a/src/utf8.c b/src/utf8.c
index bf59665..1381c9d 100644
--- a/src/utf8.c
+++ b/src/utf8.c
@@ -40,10 +40,17 @@ int utf8_code_point_length(unsigned char s) {
 	}
 }
 
-uint32_t utf8_decode(const char **start) {
+uint32_t utf8_decode(const char **start, int len) {
 	const unsigned char *s = (unsigned char *)*start;
 	int advance = 0;
 	uint32_t codepoint = 0;
+
+	int n = utf8_code_point_length(s[0]);
+	for (int i = 1; i < n; i++) {
+		if (i >= len || (s[i] & 0xC0) != 0x80)
+			ICE("Incorrectly encoded UTF-8, starting with %X\n", s[0]);
+	}
+
 	if ((s[0] & 0x80) == 0) {
 		codepoint |= (s[0] & ~0x80) << (6 * 0);
 		advance = 1;
diff --git a/src/utf8.h b/src/utf8.h
index 5257409..3bf983f 100644
--- a/src/utf8.h
+++ b/src/utf8.h
@@ -7,7 +7,8 @@
 void utf8_encode(uint32_t codepoint, char output[4]);
 
 // Decode code point starting with *start, and then advance to next code point.
-uint32_t utf8_decode(const char **start);
+// At most len bytes are read.
+uint32_t utf8_decode(const char **start, int len);
 
 // Get length of code point starting at s.
 int utf8_code_point_length(unsigned char s);
-- 
2.43.0


From fe574b60ddfd6d94ba1550f7ae3515731ee3d5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:59 +0000
Subject: [PATCH 146/149] fix: diagnose an input that needs linking together
 with -c or -S

---
 src/main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index bcd9b7f..2834849 100644
--- a/src/main.c
+++ b/src/main.c
@@ -362,7 +362,8 @@ int main(int argc, char **argv) {
 		if (is_ext_file(basename, 'c')) {
 			compile_file(arguments.operands[i], &arguments);
 		} else if (is_ext_file(basename, 'o')) {
-			assert(!(arguments.flag_S || arguments.flag_c));
+			if (arguments.flag_S || arguments.flag_c)
+				ERROR_NO_POS("Linker input %s needs linking.", arguments.operands[i]);
 			struct object *object = elf_read_object(arguments.operands[i]);
 			if (!object)
 				NOTIMP();
-- 
2.43.0


From 5b406ec5b0698e55f9a5c6391845608559a445ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:59 +0000
Subject: [PATCH 147/149] fix: diagnose strings that stringizing leaves
 unterminated

---
 src/preprocessor/string_concat.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/preprocessor/string_concat.c b/src/preprocessor/string_concat.c
index 3c53c04..f26e0e6 100644
--- a/src/preprocessor/string_concat.c
+++ b/src/preprocessor/string_concat.c
@@ -136,10 +136,8 @@ static void escape_string_to_buffer(struct string_view input, enum string_type t
 
 	while (escape_char_to_buffer(&input, end_char, type));
 
-	if (!(input.len && input.str[0] == end_char)) {
-		printf("Left over: \"%.*s\"\n", input.len, input.str);
-	}
-	assert(input.len && input.str[0] == end_char);
+	if (!(input.len && input.str[0] == end_char))
+		ERROR_NO_POS("Unterminated string literal.");
 }
 
 struct token string_concat_next(void) {
-- 
2.43.0


From e9db47de03dda88f9e696053c83d07ac0f0bf4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:55 +0000
Subject: [PATCH 148/149] fix: do not apply the #line offset twice to the token
 after a directive

---
 src/preprocessor/directives.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index 997ac45..2feaf7e 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -130,6 +130,7 @@ static struct token next_from_stack(void) {
 static void push(struct token t) {
 	if (current_file->pushed_idx > 2)
 		ICE("Pushed too many directive tokens.");
+	t.pos.line -= line_diff; // next adds it again.
 	current_file->pushed[current_file->pushed_idx++] = t;
 }
 
-- 
2.43.0


From d49f21f2e8da4182562c993393334d7b691aedfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:56 +0000
Subject: [PATCH 149/149] fix: count lines after #line from the end of the
 directive

---
 src/preprocessor/directives.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index 2feaf7e..cf6bf4c 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -697,7 +697,9 @@ struct token directiver_next(void) {
 
 				buffer.size = 0;
 				struct token arg = digit_seq;
+				int last_line = directive.pos.line;
 				while (!arg.first_of_line) {
+					last_line = arg.pos.line;
 					token_list_add(&buffer, arg);
 					arg = next();
 				}
@@ -720,7 +722,7 @@ struct token directiver_next(void) {
 				if (digit_seq.type != T_NUM)
 					ERROR(digit_seq.pos, "Expected digit sequence after #line");
 
-				line_diff += atoi(sv_to_str(digit_seq.str)) - directive.pos.line - 1;
+				line_diff += atoi(sv_to_str(digit_seq.str)) - last_line - 1;
 
 				if (has_s_char_seq) {
 					if (s_char_seq.type != T_STRING)
-- 
2.43.0

