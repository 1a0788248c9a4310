From 991357193c1d685b11dea5e0994021adf4196e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:34 +0000
Subject: [PATCH 01/49] fix: drop the unused value of %=, <<=, >>=, &=, ^= and
 |= on the virtual machine

---
 libs/compiler/instructions.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/compiler/instructions.c b/libs/compiler/instructions.c
index 764cdaf..f52e03b 100644
--- a/libs/compiler/instructions.c
+++ b/libs/compiler/instructions.c
@@ -166,7 +166,7 @@ instruction_t instruction_to_floating_ver(const instruction_t instruction)
 
 instruction_t instruction_to_void_ver(const instruction_t instruction)
 {
-	return (instruction >= IC_ASSIGN && instruction <= IC_DIV_ASSIGN_AT)
+	return (instruction >= IC_REM_ASSIGN && instruction <= IC_DIV_ASSIGN_AT)
 		|| (instruction >= IC_POST_INC && instruction <= IC_PRE_DEC_AT)
 		|| (instruction >= IC_ASSIGN_R && instruction <= IC_DIV_ASSIGN_AT_R)
 		|| (instruction >= IC_POST_INC_R && instruction <= IC_PRE_DEC_AT_R)
-- 
2.43.0


From 18b63bab63fe1b5813ab150cc8eec0ab31a2d5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:34 +0000
Subject: [PATCH 02/49] fix: load booleans and files stored behind an address
 as one word on the virtual machine

---
 libs/compiler/codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/compiler/codegen.c b/libs/compiler/codegen.c
index e27ba7d..f8b4337 100644
--- a/libs/compiler/codegen.c
+++ b/libs/compiler/codegen.c
@@ -456,7 +456,7 @@ static void emit_load_of_lvalue(encoder *const enc, lvalue value)
 			}
 			else if (!type_is_array(enc->sx, value.type) && !type_is_pointer(enc->sx, value.type))
 			{
-				mem_add(enc, type_is_integer(enc->sx, value.type) ? IC_LAT : IC_LATD);
+				mem_add(enc, type_is_floating(enc->sx, value.type) ? IC_LATD : IC_LAT);
 			}
 
 			return;
-- 
2.43.0


From 7473b41ce1fb4d9c57665fa597645d96ed9a1213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:28 +0000
Subject: [PATCH 03/49] fix: load and store pointers kept in array elements and
 structure members on the virtual machine

---
 libs/compiler/codegen.c | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/libs/compiler/codegen.c b/libs/compiler/codegen.c
index f8b4337..56b1ab5 100644
--- a/libs/compiler/codegen.c
+++ b/libs/compiler/codegen.c
@@ -454,7 +454,7 @@ static void emit_load_of_lvalue(encoder *const enc, lvalue value)
 				mem_add(enc, IC_COPY1ST);
 				mem_add(enc, (item_t)type_size(enc->sx, value.type));
 			}
-			else if (!type_is_array(enc->sx, value.type) && !type_is_pointer(enc->sx, value.type))
+			else if (!type_is_array(enc->sx, value.type))
 			{
 				mem_add(enc, type_is_floating(enc->sx, value.type) ? IC_LATD : IC_LAT);
 			}
@@ -539,7 +539,7 @@ static lvalue emit_member_lvalue(encoder *const enc, const node *const nd)
 		emit_expression(enc, &base);
 		mem_add(enc, IC_SELECT);
 		mem_add(enc, member_displ);
-		if (type_is_array(enc->sx, type) || type_is_pointer(enc->sx, type))
+		if (type_is_array(enc->sx, type))
 		{
 			mem_add(enc, IC_LAT);
 		}
@@ -559,7 +559,7 @@ static lvalue emit_member_lvalue(encoder *const enc, const node *const nd)
 			mem_add(enc, IC_SELECT);
 			mem_add(enc, member_displ);
 
-			if (type_is_array(enc->sx, type) || type_is_pointer(enc->sx, type))
+			if (type_is_array(enc->sx, type))
 			{
 				mem_add(enc, IC_LAT);
 			}
@@ -582,12 +582,7 @@ static lvalue emit_indirection_lvalue(encoder *const enc, const node *const nd)
 	const item_t type = expression_get_type(nd);
 	const item_t unqualified_type = type_is_const(enc->sx, type) ? type_const_get_unqualified_type(enc->sx, type) : type;
 	const node operand = expression_unary_get_operand(nd);
-	const lvalue value = emit_lvalue(enc, &operand);
-	if (value.kind == VARIABLE)
-	{
-		mem_add(enc, IC_LOAD);
-		mem_add(enc, value.displ);
-	}
+	emit_expression(enc, &operand);
 
 	return (lvalue){ .kind = ADDRESS, .type = unqualified_type };
 }
-- 
2.43.0


From bfdc979e1b16db86bc3715e290949a40c9b71e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:55 +0000
Subject: [PATCH 04/49] fix: continue re-evaluates the loop condition in LLVM
 code

---
 libs/compiler/llvmgen.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index a0a3eaa..0ffa48b 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -2633,7 +2633,7 @@ static void emit_while_statement(information *const info, const node *const nd)
 	info->label_true = label_body;
 	info->label_false = label_end;
 	info->label_break = label_end;
-	info->label_continue = label_body;
+	info->label_continue = label_condition;
 
 	to_code_unconditional_branch(info, label_condition);
 	to_code_label(info, label_condition);
@@ -2671,12 +2671,13 @@ static void emit_do_statement(information *const info, const node *const nd)
 	const size_t old_label_break = info->label_break;
 	const size_t old_label_continue = info->label_continue;
 	const size_t label_loop = info->label_num++;
+	const size_t label_condition = info->label_num++;
 	const size_t label_end = info->label_num++;
 
 	info->label_true = label_loop;
 	info->label_false = label_end;
 	info->label_break = label_end;
-	info->label_continue = label_loop;
+	info->label_continue = label_condition;
 
 	to_code_unconditional_branch(info, label_loop);
 	to_code_label(info, label_loop);
@@ -2684,6 +2685,9 @@ static void emit_do_statement(information *const info, const node *const nd)
 	const node body = statement_do_get_body(nd);
 	emit_statement(info, &body);
 
+	to_code_unconditional_branch(info, label_condition);
+	to_code_label(info, label_condition);
+
 	info->variable_location = LFREE;
 	const node condition = statement_do_get_condition(nd);
 	emit_expression(info, &condition);
@@ -2719,7 +2723,7 @@ static void emit_for_statement(information *const info, const node *const nd)
 	info->label_true = label_body;
 	info->label_false = label_end;
 	info->label_break = label_end;
-	info->label_continue = label_body;
+	info->label_continue = label_incr;
 
 	if (statement_for_has_inition(nd))
 	{
-- 
2.43.0


From 2f45d43e22a35f38b179944d3e25be21922bc2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:28 +0000
Subject: [PATCH 05/49] fix: LLVM code of a for loop without condition starts
 with the body

---
 libs/compiler/llvmgen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 0ffa48b..9b0b514 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -2744,7 +2744,7 @@ static void emit_for_statement(information *const info, const node *const nd)
 	}
 	else
 	{
-		to_code_unconditional_branch(info, label_incr);
+		to_code_unconditional_branch(info, label_body);
 	}
 
 	to_code_label(info, label_incr);
-- 
2.43.0


From 9de085ba479e66db0a4a793c8d6e6ff9922d8bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:57 +0000
Subject: [PATCH 06/49] fix: LLVM code of switch: default label, several and
 nested switches

---
 libs/compiler/llvmgen.c | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 9b0b514..7b061c8 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -2864,13 +2864,17 @@ static void emit_case_statement(information *const info, const node *const nd)
 static void emit_switch_statement(information *const info, const node *const nd)
 {
 	item_t case_values[MAX_CASES];
+	size_t case_labels[MAX_CASES];
+	const size_t old_label_break = info->label_break;
+	const size_t old_label_switch = info->label_switch;
 
 	const node condition = statement_switch_get_condition(nd);
 	emit_expression(info, &condition);
 
 	const node body = statement_switch_get_body(nd);
 	size_t case_num = 0;
-	int has_default = 0;
+	size_t label_amount = 0;
+	size_t default_label = SIZE_MAX;
 	if (statement_get_class(&body) == STMT_COMPOUND)
 	{
 		const size_t size = statement_compound_get_size(&body);
@@ -2884,32 +2888,44 @@ static void emit_switch_statement(information *const info, const node *const nd)
 				emit_expression(info, &expr);
 
 				case_values[case_num] = info->answer_const;
+				case_labels[case_num] = label_amount++;
 				case_num++;
 			}
 			else if (statement_get_class(&substmt) == STMT_DEFAULT)
 			{
-				has_default = 1;
-			}	
+				default_label = label_amount++;
+			}
 		}
 	}
 
+	// Метки нумеруются по убыванию в порядке появления, последняя - выход из switch
+	const size_t label_end = info->label_num;
+	const size_t label_first = label_end + label_amount;
+	info->label_num = label_first + 1;
+
 	uni_printf(info->sx->io, " switch ");
 	type_to_io(info, expression_get_type(&condition));
-	uni_printf(info->sx->io, " %%.%zu, label %%label%zu [\n", info->answer_reg, info->label_switch - case_num - has_default);
+	uni_printf(info->sx->io, " %%.%zu, label %%label%zu [\n", info->answer_reg
+		, default_label == SIZE_MAX ? label_end : label_first - default_label);
 	for (size_t i = 0; i < case_num; i++)
 	{
 		uni_printf(info->sx->io, "  ");
 		type_to_io(info, expression_get_type(&condition));
-		uni_printf(info->sx->io, " %" PRIitem ", label %%label%zu\n", case_values[i], info->label_switch - i);
+		uni_printf(info->sx->io, " %" PRIitem ", label %%label%zu\n", case_values[i], label_first - case_labels[i]);
 	}
 	uni_printf(info->sx->io, " ]\n");
 
-	info->label_break = info->label_switch - case_num - has_default;
+	info->label_break = label_end;
+	info->label_switch = label_first;
 	if (statement_get_class(&body) == STMT_COMPOUND)
 	{
 		emit_compound_statement(info, &body, true);
 	}
-	to_code_label(info, info->label_break);
+	to_code_unconditional_branch(info, label_end);
+	to_code_label(info, label_end);
+
+	info->label_break = old_label_break;
+	info->label_switch = old_label_switch;
 }
 
 /**
-- 
2.43.0


From d41ce720f505a6b7aaa16bd850b5431b432d5663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:18 +0000
Subject: [PATCH 07/49] fix: LLVM code of return in main

---
 libs/compiler/llvmgen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 7b061c8..2c8dc19 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -2789,8 +2789,9 @@ static void emit_return_statement(information *const info, const node *const nd)
 		to_code_stack_load(info, -1);
 	}
 
-	if (info->is_main)
+	if (info->is_main && !statement_return_has_expression(nd))
 	{
+		uni_printf(info->sx->io, " ret i32 0\n");
 		return;
 	}
 
-- 
2.43.0


From faa18f824db4224d25fd56d07e763f9772f2fb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:08 +0000
Subject: [PATCH 08/49] fix: LLVM code of return with a comparison, character
 or boolean constant

---
 libs/compiler/llvmgen.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 2c8dc19..3ee25b0 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -2801,17 +2801,22 @@ static void emit_return_statement(information *const info, const node *const nd)
 		const node expression = statement_return_get_expression(nd);
 		emit_expression(info, &expression);
 
-		// TODO: добавить обработку других ответов (ALOGIC)
 		const item_t answer_type = expression_get_type(&expression);
 		if (info->answer_kind == ACONST && type_is_integer(info->sx, answer_type))
 		{
-			uni_printf(info->sx->io, " ret i32 %" PRIitem "\n", info->answer_const);
+			uni_printf(info->sx->io, " ret ");
+			type_to_io(info, answer_type);
+			uni_printf(info->sx->io, " %" PRIitem "\n", info->answer_const);
+		}
+		else if (info->answer_kind == ACONST && type_is_boolean(info->sx, answer_type))
+		{
+			uni_printf(info->sx->io, " ret i1 %s\n", info->answer_const_bool ? "true" : "false");
 		}
 		else if (info->answer_kind == ACONST && type_is_floating(info->sx, answer_type))
 		{
 			uni_printf(info->sx->io, " ret double %f\n", info->answer_const_double);
 		}
-		else if (info->answer_kind == AREG)
+		else if (info->answer_kind == AREG || info->answer_kind == ALOGIC)
 		{
 			uni_printf(info->sx->io, " ret ");
 			type_to_io(info, answer_type);
-- 
2.43.0


From b021980ccc7d3002b06522e43ec59aa5b49d8dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:34 +0000
Subject: [PATCH 09/49] fix: LLVM code keeps the full precision of floating
 constants

---
 libs/compiler/llvmgen.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 3ee25b0..18ea49a 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -353,7 +353,7 @@ static void to_code_operation_reg_const_double(information *const info, const bi
 {
 	uni_printf(info->sx->io, " %%.%zu = ", info->register_num);
 	operation_to_io(info, operation, TYPE_FLOATING);
-	uni_printf(info->sx->io, " double %%.%zu, %f\n", fst, snd);
+	uni_printf(info->sx->io, " double %%.%zu, %.17e\n", fst, snd);
 }
 
 static void to_code_operation_const_reg_integer(information *const info, const binary_t operation
@@ -371,7 +371,7 @@ static void to_code_operation_const_reg_double(information *const info, const bi
 {
 	uni_printf(info->sx->io, " %%.%zu = ", info->register_num);
 	operation_to_io(info, operation, TYPE_FLOATING);
-	uni_printf(info->sx->io, " double %f, %%.%zu\n", fst, snd);
+	uni_printf(info->sx->io, " double %.17e, %%.%zu\n", fst, snd);
 }
 
 static void to_code_operation_reg_null(information *const info, const binary_t operation
@@ -441,7 +441,7 @@ static inline void to_code_store_const_bool(information *const info, const bool
 static inline void to_code_store_const_double(information *const info, const double arg, const size_t id
 	, const bool is_array, const bool is_local)
 {
-	uni_printf(info->sx->io, " store double %f, double* %s%s.%zu, align 4\n"
+	uni_printf(info->sx->io, " store double %.17e, double* %s%s.%zu, align 4\n"
 		, arg, is_local ? "%" : "@", is_array ? "" : "var", id);
 }
 
@@ -1157,7 +1157,7 @@ static void emit_call_expression(information *const info, const node *const nd)
 		}
 		else // double
 		{
-			uni_printf(info->sx->io, " %f", arguments_double[i]);
+			uni_printf(info->sx->io, " %.17e", arguments_double[i]);
 		}
 	}
 	uni_printf(info->sx->io, ")\n");
@@ -2169,7 +2169,7 @@ static void emit_initialization(information *const info, const node *const nd, c
 				// константа типа double
 				else
 				{
-					uni_printf(info->sx->io, "double %f", info->answer_const_double);
+					uni_printf(info->sx->io, "double %.17e", info->answer_const_double);
 				}
 			}
 
@@ -2317,7 +2317,7 @@ static void emit_variable_declaration(information *const info, const node *const
 				}
 				else
 				{
-					uni_printf(info->sx->io, " %f, align 4\n", info->answer_const_double);
+					uni_printf(info->sx->io, " %.17e, align 4\n", info->answer_const_double);
 				}
 			}
 		}
@@ -2814,7 +2814,7 @@ static void emit_return_statement(information *const info, const node *const nd)
 		}
 		else if (info->answer_kind == ACONST && type_is_floating(info->sx, answer_type))
 		{
-			uni_printf(info->sx->io, " ret double %f\n", info->answer_const_double);
+			uni_printf(info->sx->io, " ret double %.17e\n", info->answer_const_double);
 		}
 		else if (info->answer_kind == AREG || info->answer_kind == ALOGIC)
 		{
-- 
2.43.0


From e2c89c092f2deaab733ea4c3d5cca629ddf2309c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:34 +0000
Subject: [PATCH 10/49] fix: quotes and backslashes in LLVM string constants

---
 libs/compiler/llvmgen.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 18ea49a..35f1162 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -3134,6 +3134,10 @@ static void strings_declaration(information *const info)
 			{
 				uni_printf(info->sx->io, "\\0A");
 			}
+			else if (ch == '"' || ch == '\\')
+			{
+				uni_printf(info->sx->io, "\\%02X", (unsigned int)ch);
+			}
 			else
 			{
 				uni_printf(info->sx->io, "%c", ch);
-- 
2.43.0


From 4c6399967a4031231037b19c568f79eaf09a078e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:26 +0000
Subject: [PATCH 11/49] fix: LLVM code of conditional expressions with
 floating, boolean and comparison answers

---
 libs/compiler/llvmgen.c | 41 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 35f1162..5d5d2e9 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -1806,6 +1806,31 @@ static void emit_binary_expression(information *const info, const node *const nd
 	}
 }
 
+static void ternary_answer_to_io(information *const info, const item_t type, const answer_t answer, const item_t reg
+	, const item_t value, const double value_double, const bool value_bool)
+{
+	if (answer == AREG || answer == ALOGIC)
+	{
+		uni_printf(info->sx->io, "%%.%" PRIitem, reg);
+	}
+	else if (answer == ANULL)
+	{
+		uni_printf(info->sx->io, "null");
+	}
+	else if (type_is_floating(info->sx, type))
+	{
+		uni_printf(info->sx->io, "%.17e", value_double);
+	}
+	else if (type_is_boolean(info->sx, type))
+	{
+		uni_printf(info->sx->io, "%s", value_bool ? "true" : "false");
+	}
+	else // ACONST
+	{
+		uni_printf(info->sx->io, "%" PRIitem, value);
+	}
+}
+
 /**
  *	Emit ternary expression
  *
@@ -1839,6 +1864,8 @@ static void emit_ternary_expression(information *const info, const node *const n
 	const answer_t then_answer = info->answer_kind;
 	const item_t then_reg = info->answer_reg;
 	const item_t then_const = info->answer_const;
+	const double then_const_double = info->answer_const_double;
+	const bool then_const_bool = info->answer_const_bool;
 
 	if (then_is_ternary)
 	{
@@ -1856,6 +1883,8 @@ static void emit_ternary_expression(information *const info, const node *const n
 	const answer_t else_answer = info->answer_kind;
 	const item_t else_reg = info->answer_reg;
 	const item_t else_const = info->answer_const;
+	const double else_const_double = info->answer_const_double;
+	const bool else_const_bool = info->answer_const_bool;
 
 	if (else_is_ternary)
 	{
@@ -1865,12 +1894,14 @@ static void emit_ternary_expression(information *const info, const node *const n
 	to_code_unconditional_branch(info, label_end);
 	to_code_label(info, label_end);
 
+	const item_t type = expression_get_type(nd);
 	uni_printf(info->sx->io, " %%.%zu = phi ", info->register_num);
-	type_to_io(info, expression_get_type(nd));
-	uni_printf(info->sx->io, " [ %s%" PRIitem ", %%label%zu ]", then_answer == AREG ? "%." : ""
-		, then_answer == AREG ? then_reg : then_const, label_then);
-	uni_printf(info->sx->io, ", [ %s%" PRIitem ", %%label%zu ]\n", else_answer == AREG ? "%." : ""
-		, else_answer == AREG ? else_reg : else_const, label_else);
+	type_to_io(info, type);
+	uni_printf(info->sx->io, " [ ");
+	ternary_answer_to_io(info, type, then_answer, then_reg, then_const, then_const_double, then_const_bool);
+	uni_printf(info->sx->io, ", %%label%zu ], [ ", label_then);
+	ternary_answer_to_io(info, type, else_answer, else_reg, else_const, else_const_double, else_const_bool);
+	uni_printf(info->sx->io, ", %%label%zu ]\n", label_else);
 
 	info->answer_kind = AREG;
 	info->answer_reg = info->register_num++;
-- 
2.43.0


From 15b76bbcf2bd2188909c013ffd4fc7f8591b2b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:39 +0000
Subject: [PATCH 12/49] fix: LLVM code of logical negation of boolean values
 and comparisons

---
 libs/compiler/llvmgen.c | 54 +++++++++++++++++++++++++++++++++--------
 1 file changed, 44 insertions(+), 10 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 5d5d2e9..3d7ecbb 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -1298,6 +1298,23 @@ static void emit_inc_dec_expression(information *const info, const node *const n
 	info->register_num++;
 }
 
+static bool is_logical_branch(const node *const nd)
+{
+	node expr = *nd;
+	while (expression_get_class(&expr) == EXPR_UNARY && expression_unary_get_operator(&expr) == UN_LOGNOT)
+	{
+		expr = expression_unary_get_operand(&expr);
+	}
+
+	if (expression_get_class(&expr) != EXPR_BINARY)
+	{
+		return false;
+	}
+
+	const binary_t operator = expression_binary_get_operator(&expr);
+	return operator == BIN_LOG_OR || operator == BIN_LOG_AND;
+}
+
 /**
  *	Emit unary expression
  *
@@ -1346,26 +1363,43 @@ static void emit_unary_expression(information *const info, const node *const nd)
 
 		case UN_LOGNOT:
 		{
-			const size_t temp = info->label_true;
-			info->label_true =  info->label_false;
-			info->label_false = temp;
+			const item_t operand_type = expression_get_type(&operand);
+			const size_t old_label_true = info->label_true;
+			const size_t old_label_false = info->label_false;
+
+			info->label_true = old_label_false;
+			info->label_false = old_label_true;
 
 			emit_expression(info, &operand);
 
-			if (info->answer_kind == AREG)
+			if (info->answer_kind == ALOGIC && is_logical_branch(&operand))
 			{
-				if (type_is_pointer(info->sx, expression_get_type(&operand)))
+				// переходы уже построены по переставленным меткам
+				return;
+			}
+
+			info->label_true = old_label_true;
+			info->label_false = old_label_false;
+
+			if (info->answer_kind == AREG || info->answer_kind == ALOGIC)
+			{
+				if (type_is_pointer(info->sx, operand_type))
 				{
-					to_code_operation_reg_null(info, BIN_NE, info->answer_reg, expression_get_type(&operand));
+					to_code_operation_reg_null(info, BIN_EQ, info->answer_reg, operand_type);
+				}
+				else if (type_is_integer(info->sx, operand_type))
+				{
+					to_code_operation_reg_const_integer(info, BIN_EQ, info->answer_reg, 0, operand_type);
+				}
+				else if (type_is_floating(info->sx, operand_type))
+				{
+					to_code_operation_reg_const_double(info, BIN_EQ, info->answer_reg, 0);
 				}
 				else
 				{
-					if (type_is_integer(info->sx, expression_get_type(&operand)))
-					{
-						check_type_and_branch(info, expression_get_type(&operand));
-					}
 					to_code_operation_reg_const_bool(info, BIN_XOR, info->answer_reg, true, TYPE_BOOLEAN);
 				}
+				info->answer_kind = AREG;
 				info->answer_reg = info->register_num++;
 			}
 
-- 
2.43.0


From 1f9a19374a0ff215cebd5f9116af6f03f713b641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:02 +0000
Subject: [PATCH 13/49] fix: LLVM code of operators with a character constant
 and an integer

---
 libs/compiler/llvmgen.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 3d7ecbb..633c67f 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -1540,17 +1540,23 @@ static void emit_integral_expression(information *const info, const node *const
 	const double right_const_double = info->answer_const_double;
 
 	if (type_get_class(info->sx, expression_get_type(&LHS)) == TYPE_CHARACTER 
-		&& type_get_class(info->sx, expression_get_type(&RHS)) == TYPE_INTEGER && left_kind != ACONST)
+		&& type_get_class(info->sx, expression_get_type(&RHS)) == TYPE_INTEGER)
 	{
-		to_code_char_to_int(info, left_reg);
-		left_reg = info->register_num - 1;
+		if (left_kind != ACONST)
+		{
+			to_code_char_to_int(info, left_reg);
+			left_reg = info->register_num - 1;
+		}
 		operation_type = TYPE_INTEGER;
 	}
 	if (type_get_class(info->sx, expression_get_type(&LHS)) == TYPE_INTEGER 
-		&& type_get_class(info->sx, expression_get_type(&RHS)) == TYPE_CHARACTER && right_kind != ACONST)
+		&& type_get_class(info->sx, expression_get_type(&RHS)) == TYPE_CHARACTER)
 	{
-		to_code_char_to_int(info, right_reg);
-		right_reg = info->register_num - 1;
+		if (right_kind != ACONST)
+		{
+			to_code_char_to_int(info, right_reg);
+			right_reg = info->register_num - 1;
+		}
 		operation_type = TYPE_INTEGER;
 	}
 
-- 
2.43.0


From 6cd601c96bbcd41324fd1e17602d3093f38421de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:02 +0000
Subject: [PATCH 14/49] fix: LLVM code of compound assignment between character
 and integer uses the converted operand

---
 libs/compiler/llvmgen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 633c67f..22274c6 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -1667,7 +1667,7 @@ static void emit_assignment_expression(information *const info, const node *cons
 
 		if (info->answer_kind == AREG)
 		{
-			to_code_operation_reg_reg(info, assignment_type, info->register_num - 1, info->answer_reg, operation_type);
+			to_code_operation_reg_reg(info, assignment_type, info->register_num - 1, result, operation_type);
 		}
 		else if (type_is_integer(info->sx, operation_type)) // ACONST и операция =
 		{
-- 
2.43.0


From 88a4b5812aaa6ce5c7d6825490956ccf61c0e731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:47 +0000
Subject: [PATCH 15/49] fix: LLVM code of comparisons of boolean and pointer
 operands

---
 libs/compiler/llvmgen.c | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 22274c6..d47e85f 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -247,22 +247,22 @@ static void operation_to_io(information *const info, const binary_t operation_ty
 	{
 		case BIN_ADD_ASSIGN:
 		case BIN_ADD:
-			uni_printf(info->sx->io, type_is_integer(info->sx, type) ? "add nsw" : "fadd");
+			uni_printf(info->sx->io, type_is_floating(info->sx, type) ? "fadd" : "add nsw");
 			break;
 
 		case BIN_SUB_ASSIGN:
 		case BIN_SUB:
-			uni_printf(info->sx->io, type_is_integer(info->sx, type) ? "sub nsw" : "fsub");
+			uni_printf(info->sx->io, type_is_floating(info->sx, type) ? "fsub" : "sub nsw");
 			break;
 
 		case BIN_MUL_ASSIGN:
 		case BIN_MUL:
-			uni_printf(info->sx->io, type_is_integer(info->sx, type) ? "mul nsw" : "fmul");
+			uni_printf(info->sx->io, type_is_floating(info->sx, type) ? "fmul" : "mul nsw");
 			break;
 
 		case BIN_DIV_ASSIGN:
 		case BIN_DIV:
-			uni_printf(info->sx->io, type_is_integer(info->sx, type) ? "sdiv" : "fdiv");
+			uni_printf(info->sx->io, type_is_floating(info->sx, type) ? "fdiv" : "sdiv");
 			break;
 
 		case BIN_REM_ASSIGN:
@@ -296,22 +296,22 @@ static void operation_to_io(information *const info, const binary_t operation_ty
 			break;
 
 		case BIN_EQ:
-			uni_printf(info->sx->io, type_is_integer(info->sx, type) ? "icmp eq" : "fcmp oeq");
+			uni_printf(info->sx->io, type_is_floating(info->sx, type) ? "fcmp oeq" : "icmp eq");
 			break;
 		case BIN_NE:
-			uni_printf(info->sx->io, type_is_integer(info->sx, type) ? "icmp ne" : "fcmp one");
+			uni_printf(info->sx->io, type_is_floating(info->sx, type) ? "fcmp one" : "icmp ne");
 			break;
 		case BIN_LT:
-			uni_printf(info->sx->io, type_is_integer(info->sx, type) ? "icmp slt" : "fcmp olt");
+			uni_printf(info->sx->io, type_is_floating(info->sx, type) ? "fcmp olt" : "icmp slt");
 			break;
 		case BIN_GT:
-			uni_printf(info->sx->io, type_is_integer(info->sx, type) ? "icmp sgt" : "fcmp ogt");
+			uni_printf(info->sx->io, type_is_floating(info->sx, type) ? "fcmp ogt" : "icmp sgt");
 			break;
 		case BIN_LE:
-			uni_printf(info->sx->io, type_is_integer(info->sx, type) ? "icmp sle" : "fcmp ole");
+			uni_printf(info->sx->io, type_is_floating(info->sx, type) ? "fcmp ole" : "icmp sle");
 			break;
 		case BIN_GE:
-			uni_printf(info->sx->io, type_is_integer(info->sx, type) ? "icmp sge" : "fcmp oge");
+			uni_printf(info->sx->io, type_is_floating(info->sx, type) ? "fcmp oge" : "icmp sge");
 			break;
 		default:
 			break;
@@ -1525,19 +1525,21 @@ static void emit_integral_expression(information *const info, const node *const
 	emit_expression(info, &LHS);
 
 	// TODO: спрятать эти переменные в одну структуру и возвращать ее из emit_expr
-	const answer_t left_kind = info->answer_kind;
+	const answer_t left_kind = info->answer_kind == ALOGIC ? AREG : info->answer_kind;
 	size_t left_reg = info->answer_reg;
 	const item_t left_const = info->answer_const;
 	const double left_const_double = info->answer_const_double;
+	const bool left_const_bool = info->answer_const_bool;
 
 	info->variable_location = LFREE;
 	const node RHS = expression_binary_get_RHS(nd);
 	emit_expression(info, &RHS);
 
-	const answer_t right_kind = info->answer_kind;
+	const answer_t right_kind = info->answer_kind == ALOGIC ? AREG : info->answer_kind;
 	size_t right_reg = info->answer_reg;
 	const item_t right_const = info->answer_const;
 	const double right_const_double = info->answer_const_double;
+	const bool right_const_bool = info->answer_const_bool;
 
 	if (type_get_class(info->sx, expression_get_type(&LHS)) == TYPE_CHARACTER 
 		&& type_get_class(info->sx, expression_get_type(&RHS)) == TYPE_INTEGER)
@@ -1568,6 +1570,15 @@ static void emit_integral_expression(information *const info, const node *const
 	{
 		to_code_operation_reg_const_integer(info, operation, left_reg, right_const, operation_type);
 	}
+	else if (left_kind == AREG && right_kind == ACONST && type_is_boolean(info->sx, operation_type))
+	{
+		to_code_operation_reg_const_bool(info, operation, left_reg, right_const_bool, operation_type);
+	}
+	else if (left_kind == ACONST && right_kind == AREG && type_is_boolean(info->sx, operation_type))
+	{
+		// сравнения логических значений на равенство симметричны
+		to_code_operation_reg_const_bool(info, operation, right_reg, left_const_bool, operation_type);
+	}
 	else if (left_kind == AREG && right_kind == ACONST) // double
 	{
 		to_code_operation_reg_const_double(info, operation, left_reg, right_const_double);
-- 
2.43.0


From 9dce662de0d08684ef6b65b16db24623656bf5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:11 +0000
Subject: [PATCH 16/49] fix: LLVM code of compound assignment and increment of
 computed designators

---
 libs/compiler/llvmgen.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index d47e85f..4218c7f 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -1266,7 +1266,8 @@ static void emit_inc_dec_expression(information *const info, const node *const n
 		id = (size_t)info->answer_reg;
 	}
 
-	to_code_load(info, info->register_num, id, operation_type, is_complex, ident_is_local(info->sx, id));
+	const bool is_local = is_complex || ident_is_local(info->sx, id);
+	to_code_load(info, info->register_num, id, operation_type, is_complex, is_local);
 	info->answer_kind = AREG;
 	info->answer_reg = info->register_num++;
 
@@ -1294,7 +1295,7 @@ static void emit_inc_dec_expression(information *const info, const node *const n
 			break;
 	}
 
-	to_code_store_reg(info, info->register_num, id, operation_type, is_complex, false, ident_is_local(info->sx, id));
+	to_code_store_reg(info, info->register_num, id, operation_type, is_complex, false, is_local);
 	info->register_num++;
 }
 
@@ -1673,7 +1674,7 @@ static void emit_assignment_expression(information *const info, const node *cons
 
 	if (assignment_type != BIN_ASSIGN)
 	{
-		to_code_load(info, info->register_num, id, operation_type, is_complex, ident_is_local(info->sx, id));
+		to_code_load(info, info->register_num, id, operation_type, is_complex, is_complex || ident_is_local(info->sx, id));
 		info->register_num++;
 
 		if (info->answer_kind == AREG)
-- 
2.43.0


From a6c93021b9d350566fca5dd31219e7ef5e8836c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:39 +0000
Subject: [PATCH 17/49] fix: LLVM code of the address of a global variable

---
 libs/compiler/llvmgen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 4218c7f..bc931ad 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -416,7 +416,7 @@ static void to_code_store_reg(information *const info, const size_t reg, const s
 {
 	uni_printf(info->sx->io, " store ");
 	type_to_io(info, type);
-	uni_printf(info->sx->io, " %s%s.%zu, ", /*ident_is_local(info->sx, reg)*/true ? "%" : "@", is_pointer ? "var" : "", reg);
+	uni_printf(info->sx->io, " %s%s.%zu, ", !is_pointer || ident_is_local(info->sx, reg) ? "%" : "@", is_pointer ? "var" : "", reg);
 	type_to_io(info, type);
 	uni_printf(info->sx->io, "* %s%s.%zu, align 4\n", is_local ? "%" : "@", is_array ? "" : "var", id);
 }
-- 
2.43.0


From a8f38ea98b2139d7074645919143b4452e6b0df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:52 +0000
Subject: [PATCH 18/49] fix: LLVM code of address and null arguments

---
 libs/compiler/llvmgen.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index bc931ad..f01a2a2 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -1031,7 +1031,7 @@ static void emit_call_expression(information *const info, const node *const nd)
 		// TODO: сделать параметры других типов (логическое)
 		arguments_type[i] = info->answer_kind;
 
-		if (info->answer_kind == AREG || info->answer_kind == ALOGIC)
+		if (info->answer_kind == AREG || info->answer_kind == ALOGIC || info->answer_kind == AMEM)
 		{
 			arguments[i] = info->answer_reg;
 		}
@@ -1136,6 +1136,14 @@ static void emit_call_expression(information *const info, const node *const nd)
 		{
 			uni_printf(info->sx->io, " %%.%" PRIitem, arguments[i]);
 		}
+		else if (arguments_type[i] == AMEM)
+		{
+			uni_printf(info->sx->io, " %svar.%" PRIitem, ident_is_local(info->sx, (size_t)arguments[i]) ? "%" : "@", arguments[i]);
+		}
+		else if (arguments_type[i] == ANULL)
+		{
+			uni_printf(info->sx->io, " null");
+		}
 		else if (arguments_type[i] == ASTR)
 		{
 			const size_t index = (size_t)arguments[i];
-- 
2.43.0


From 6e2ccdf07dfa6910d7c6010e70230b0a74d84130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:39 +0000
Subject: [PATCH 19/49] fix: LLVM code of storing a null pointer through a
 designator or into a global variable

---
 libs/compiler/llvmgen.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index f01a2a2..6eb5f9c 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -445,13 +445,14 @@ static inline void to_code_store_const_double(information *const info, const dou
 		, arg, is_local ? "%" : "@", is_array ? "" : "var", id);
 }
 
-static void to_code_store_null(information *const info, const size_t id, const item_t type)
+static void to_code_store_null(information *const info, const size_t id, const item_t type
+	, const bool is_array, const bool is_local)
 {
 	uni_printf(info->sx->io, " store ");
 	type_to_io(info, type);
 	uni_printf(info->sx->io, " null, ");
 	type_to_io(info, type);
-	uni_printf(info->sx->io, "* %%var.%zu, align 4\n", id);
+	uni_printf(info->sx->io, "* %s%s.%zu, align 4\n", is_local ? "%" : "@", is_array ? "" : "var", id);
 }
 
 static inline void to_code_label(information *const info, const size_t label_num)
@@ -1714,7 +1715,7 @@ static void emit_assignment_expression(information *const info, const node *cons
 	}
 	else if (info->answer_kind == ANULL)
 	{
-		to_code_store_null(info, id, operation_type);
+		to_code_store_null(info, id, operation_type, is_complex, !is_complex ? ident_is_local(info->sx, id) : true);
 	}
 	else if (type_is_integer(info->sx, operation_type)) // ACONST и операция =
 	{
@@ -2359,7 +2360,7 @@ static void emit_variable_declaration(information *const info, const node *const
 			}
 			else if (info->answer_kind == ANULL)
 			{
-				to_code_store_null(info, id, type);
+				to_code_store_null(info, id, type, false, is_local);
 			}
 
 		}
-- 
2.43.0


From 2f000c70c3c930fc36957a4d823509b583ae6fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:43 +0000
Subject: [PATCH 20/49] fix: LLVM code of declarations initialised with a
 comparison, a character constant or a global boolean or null

---
 libs/compiler/llvmgen.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 6eb5f9c..777a126 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -2321,14 +2321,14 @@ static void emit_variable_declaration(information *const info, const node *const
 			const node initializer = declaration_variable_get_initializer(nd);
 			emit_expression(info, &initializer);
 
-			if (type_get_class(info->sx, type) == TYPE_INTEGER 
+			if (info->answer_kind == AREG && type_get_class(info->sx, type) == TYPE_INTEGER
 				&& type_get_class(info->sx, expression_get_type(&initializer)) == TYPE_CHARACTER)
 			{
 				to_code_char_to_int(info, info->answer_reg);
 				info->answer_reg = info->register_num - 1;
 			}
 
-			if (type_get_class(info->sx, type) == TYPE_CHARACTER 
+			if (info->answer_kind == AREG && type_get_class(info->sx, type) == TYPE_CHARACTER
 				&& type_get_class(info->sx, expression_get_type(&initializer)) == TYPE_INTEGER)
 			{
 				to_code_int_to_char(info, info->answer_reg);
@@ -2350,7 +2350,7 @@ static void emit_variable_declaration(information *const info, const node *const
 					to_code_store_const_double(info, info->answer_const_double, info->request_reg, false, is_local);
 				}
 			}
-			else if (info->answer_kind == AREG)
+			else if (info->answer_kind == AREG || info->answer_kind == ALOGIC)
 			{
 				to_code_store_reg(info, info->answer_reg, id, type, false, false, is_local);
 			}
@@ -2407,11 +2407,21 @@ static void emit_variable_declaration(information *const info, const node *const
 				{
 					uni_printf(info->sx->io, " %" PRIitem ", align 4\n", info->answer_const);
 				}
+				else if (type_is_boolean(info->sx, type))
+				{
+					uni_printf(info->sx->io, " %s, align 4\n", info->answer_const_bool ? "true" : "false");
+				}
 				else
 				{
 					uni_printf(info->sx->io, " %.17e, align 4\n", info->answer_const_double);
 				}
 			}
+			else if (info->answer_kind == ANULL)
+			{
+				uni_printf(info->sx->io, "global ");
+				type_to_io(info, type);
+				uni_printf(info->sx->io, " null, align 4\n");
+			}
 		}
 		else
 		{
-- 
2.43.0


From 222c4fede3eff5e55f60cf1db09bd960893dcd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:54 +0000
Subject: [PATCH 21/49] fix: LLVM code of logical operators as values and of
 conditional expressions over several blocks

---
 libs/compiler/llvmgen.c | 221 +++++++++++++++++-----------------------
 1 file changed, 93 insertions(+), 128 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 777a126..110fdde 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -38,6 +38,7 @@ typedef enum ANSWER
 	AREG,								/**< Ответ находится в регистре */
 	ACONST,								/**< Ответ является константой */
 	ALOGIC,								/**< Ответ является логическим значением */
+	ABRANCH,							/**< Ответ уже построен в виде переходов */
 	AMEM,								/**< Ответ находится в памяти */
 	ASTR,								/**< Ответ является строкой */
 	ANULL,								/**< Ответ является null */
@@ -47,7 +48,7 @@ typedef enum LOCATION
 {
 	LREG,								/**< Переменная находится в регистре */
 	LMEM,								/**< Переменная находится в памяти */
-	LNOLOG,								/**< Любой ответ кроме логического */
+	LLOGIC,								/**< Ответ может быть построен в виде переходов */
 	LFREE,								/**< Свободный запрос значения */
 } location_t;
 
@@ -74,8 +75,7 @@ typedef struct information
 	size_t label_false;						/**< Метка перехода при false */
 	size_t label_break;						/**< Метка перехода для break */
 	size_t label_continue;					/**< Метка перехода для continue */
-	size_t label_ternary_end;				/**< Метка перехода в конец тернарного выражения */
-	size_t label_phi_previous;				/**< Метка перехода последнего использования phi */
+	size_t label_current;					/**< Последняя поставленная метка */
 	size_t label_switch;					/**< Метка для switch */
 
 	hash arrays;							/**< Хеш таблица с информацией о массивах:
@@ -455,9 +455,10 @@ static void to_code_store_null(information *const info, const size_t id, const i
 	uni_printf(info->sx->io, "* %s%s.%zu, align 4\n", is_local ? "%" : "@", is_array ? "" : "var", id);
 }
 
-static inline void to_code_label(information *const info, const size_t label_num)
+static void to_code_label(information *const info, const size_t label_num)
 {
 	uni_printf(info->sx->io, " label%zu:\n", label_num);
+	info->label_current = label_num;
 }
 
 static inline void to_code_unconditional_branch(information *const info, const size_t label_num)
@@ -674,14 +675,7 @@ static void check_type_and_branch(information *const info, const item_t type)
 			info->answer_reg = info->register_num++;
 		}
 		case ALOGIC:
-			if (info->variable_location == LNOLOG)
-			{
-				to_code_unconditional_branch(info, info->label_false);
-			}
-			else
-			{
-				to_code_conditional_branch(info);
-			}
+			to_code_conditional_branch(info);
 			break;
 		default:
 			break;
@@ -1374,22 +1368,24 @@ static void emit_unary_expression(information *const info, const node *const nd)
 		case UN_LOGNOT:
 		{
 			const item_t operand_type = expression_get_type(&operand);
-			const size_t old_label_true = info->label_true;
-			const size_t old_label_false = info->label_false;
 
-			info->label_true = old_label_false;
-			info->label_false = old_label_true;
+			if (info->variable_location == LLOGIC && is_logical_branch(&operand))
+			{
+				const size_t old_label_true = info->label_true;
+				const size_t old_label_false = info->label_false;
 
-			emit_expression(info, &operand);
+				info->label_true = old_label_false;
+				info->label_false = old_label_true;
 
-			if (info->answer_kind == ALOGIC && is_logical_branch(&operand))
-			{
-				// переходы уже построены по переставленным меткам
+				emit_expression(info, &operand);
+
+				info->label_true = old_label_true;
+				info->label_false = old_label_false;
 				return;
 			}
 
-			info->label_true = old_label_true;
-			info->label_false = old_label_false;
+			info->variable_location = LFREE;
+			emit_expression(info, &operand);
 
 			if (info->answer_kind == AREG || info->answer_kind == ALOGIC)
 			{
@@ -1650,7 +1646,7 @@ static void emit_assignment_expression(information *const info, const node *cons
 		id = info->answer_reg;
 	}
 
-	info->variable_location = LNOLOG;
+	info->variable_location = LFREE;
 	const node RHS = expression_assignment_get_RHS(nd);
 	if (expression_get_class(&RHS) == EXPR_INITIALIZER)
 	{
@@ -1731,6 +1727,60 @@ static void emit_assignment_expression(information *const info, const node *cons
 	}
 }
 
+/**
+ *	Emit logical OR or AND expression
+ *
+ *	@param	info	Encoder
+ *	@param	nd		Node in AST
+ */
+static void emit_logical_expression(information *const info, const node *const nd)
+{
+	const size_t old_label_true = info->label_true;
+	const size_t old_label_false = info->label_false;
+
+	const bool is_value = info->variable_location != LLOGIC;
+	const size_t label_true = is_value ? info->label_num++ : info->label_true;
+	const size_t label_false = is_value ? info->label_num++ : info->label_false;
+	const size_t label_next = info->label_num++;
+
+	const bool is_or = expression_binary_get_operator(nd) == BIN_LOG_OR;
+	info->label_true = is_or ? label_true : label_next;
+	info->label_false = is_or ? label_next : label_false;
+
+	info->variable_location = LLOGIC;
+	const node LHS = expression_binary_get_LHS(nd);
+	emit_expression(info, &LHS);
+	check_type_and_branch(info, expression_get_type(&LHS));
+
+	to_code_label(info, label_next);
+	info->label_true = label_true;
+	info->label_false = label_false;
+
+	info->variable_location = LLOGIC;
+	const node RHS = expression_binary_get_RHS(nd);
+	emit_expression(info, &RHS);
+	check_type_and_branch(info, expression_get_type(&RHS));
+	info->answer_kind = ABRANCH;
+
+	info->label_true = old_label_true;
+	info->label_false = old_label_false;
+
+	if (is_value)
+	{
+		const size_t label_end = info->label_num++;
+		to_code_label(info, label_true);
+		to_code_unconditional_branch(info, label_end);
+		to_code_label(info, label_false);
+		to_code_unconditional_branch(info, label_end);
+		to_code_label(info, label_end);
+
+		uni_printf(info->sx->io, " %%.%zu = phi i1 [ true, %%label%zu ], [ false, %%label%zu ]\n", info->register_num
+			, label_true, label_false);
+		info->answer_kind = AREG;
+		info->answer_reg = info->register_num++;
+	}
+}
+
 /**
  *	Emit binary expression
  *
@@ -1765,97 +1815,20 @@ static void emit_binary_expression(information *const info, const node *const nd
 			emit_integral_expression(info, nd, ALOGIC);
 			return;
 
-		// TODO: протестировать и при необходимости реализовать случай, когда && и || есть в арифметических выражениях
 		case BIN_LOG_OR:
 		case BIN_LOG_AND:
-		{
-			const bool is_logic = info->variable_location != LNOLOG;
-			if (!is_logic)
-			{
-				info->label_true = info->label_num++;
-				info->label_false = info->label_num++;
-			}
-
-			const size_t label_next = info->label_num++;
-			const size_t old_label_true = info->label_true;
-			const size_t old_label_false = info->label_false;
-
-			if (operator == BIN_LOG_OR)
-			{
-				info->label_false = label_next;
-
-				if (!is_logic)
-				{
-					info->label_true = old_label_false;
-				}
-			}
-			else // (operator == OP_LOG_AND)
-			{
-				info->label_true = label_next;
-			}
-
-			const node LHS = expression_binary_get_LHS(nd);
-			info->variable_location = is_logic ? LFREE : LNOLOG;
-			emit_expression(info, &LHS);
-
-			if (!is_logic)
-			{
-				info->label_true = old_label_true;
-				info->label_false = old_label_false;
-
-				if (operator == BIN_LOG_OR)
-				{
-					info->label_false = label_next;
-
-					if (!is_logic)
-					{
-						info->label_true = old_label_false;
-					}
-				}
-				else // (operator == OP_LOG_AND)
-				{
-					info->label_true = label_next;
-				}
-			}
-
-			info->variable_location = LFREE;
-			check_type_and_branch(info, expression_get_type(&LHS));
-
-			to_code_label(info, label_next);
-			info->label_true = old_label_true;
-			info->label_false = old_label_false;
-
-			const node RHS = expression_binary_get_RHS(nd);
-			info->variable_location = is_logic ? LFREE : LNOLOG;
-			emit_expression(info, &RHS);
-
-			info->variable_location = is_logic ? LFREE : LNOLOG;
-			check_type_and_branch(info, expression_get_type(&RHS));
-
-			if (!is_logic)
-			{
-				to_code_label(info, info->label_false);
-				uni_printf(info->sx->io, " %%.%zu = phi i1 [ %s, %%%s%zu ], [ %%.%zu, %%label%zu ]\n", info->register_num
-					, operator == BIN_LOG_OR ? "true" : "false", info->label_phi_previous == 0 ? "" : "label"
-					, info->label_phi_previous, info->register_num - 1, label_next);
-
-				info->label_phi_previous = info->label_false;
-				info->answer_reg = info->register_num;
-				info->answer_kind = AREG;
-				info->register_num++;
-			}
-			else
-			{
-				info->answer_kind = ALOGIC;
-			}
+			emit_logical_expression(info, nd);
 			return;
-		}
 
 		case BIN_COMMA:
 		{
+			const location_t location = info->variable_location;
+
+			info->variable_location = LFREE;
 			const node LHS = expression_binary_get_LHS(nd);
 			emit_expression(info, &LHS);
 
+			info->variable_location = location;
 			const node RHS = expression_binary_get_RHS(nd);
 			emit_expression(info, &RHS);
 		}
@@ -1902,14 +1875,14 @@ static void emit_ternary_expression(information *const info, const node *const n
 {
 	const size_t old_label_true = info->label_true;
 	const size_t old_label_false = info->label_false;
-	size_t label_then = info->label_num++;
-	size_t label_else = info->label_num++;
+	const size_t label_then = info->label_num++;
+	const size_t label_else = info->label_num++;
 	const size_t label_end = info->label_num++;
 
 	info->label_true = label_then;
 	info->label_false = label_else;
 
-	info->variable_location = LFREE;
+	info->variable_location = LLOGIC;
 	const node condition = expression_ternary_get_condition(nd);
 	emit_expression(info, &condition);
 
@@ -1919,7 +1892,6 @@ static void emit_ternary_expression(information *const info, const node *const n
 
 	info->variable_location = LFREE;
 	const node LHS = expression_ternary_get_LHS(nd);
-	const bool then_is_ternary = expression_get_class(&LHS) == EXPR_TERNARY;
 	emit_expression(info, &LHS);
 
 	const answer_t then_answer = info->answer_kind;
@@ -1928,17 +1900,12 @@ static void emit_ternary_expression(information *const info, const node *const n
 	const double then_const_double = info->answer_const_double;
 	const bool then_const_bool = info->answer_const_bool;
 
-	if (then_is_ternary)
-	{
-		label_then = info->label_ternary_end;
-	}
-
+	const size_t label_then_end = info->label_current;
 	to_code_unconditional_branch(info, label_end);
 	to_code_label(info, label_else);
 
 	info->variable_location = LFREE;
 	const node RHS = expression_ternary_get_RHS(nd);
-	const bool else_is_ternary = expression_get_class(&RHS) == EXPR_TERNARY;
 	emit_expression(info, &RHS);
 
 	const answer_t else_answer = info->answer_kind;
@@ -1947,11 +1914,7 @@ static void emit_ternary_expression(information *const info, const node *const n
 	const double else_const_double = info->answer_const_double;
 	const bool else_const_bool = info->answer_const_bool;
 
-	if (else_is_ternary)
-	{
-		label_else = info->label_ternary_end;
-	}
-
+	const size_t label_else_end = info->label_current;
 	to_code_unconditional_branch(info, label_end);
 	to_code_label(info, label_end);
 
@@ -1960,16 +1923,15 @@ static void emit_ternary_expression(information *const info, const node *const n
 	type_to_io(info, type);
 	uni_printf(info->sx->io, " [ ");
 	ternary_answer_to_io(info, type, then_answer, then_reg, then_const, then_const_double, then_const_bool);
-	uni_printf(info->sx->io, ", %%label%zu ], [ ", label_then);
+	uni_printf(info->sx->io, ", %%label%zu ], [ ", label_then_end);
 	ternary_answer_to_io(info, type, else_answer, else_reg, else_const, else_const_double, else_const_bool);
-	uni_printf(info->sx->io, ", %%label%zu ]\n", label_else);
+	uni_printf(info->sx->io, ", %%label%zu ]\n", label_else_end);
 
 	info->answer_kind = AREG;
 	info->answer_reg = info->register_num++;
 
 	info->label_true = old_label_true;
 	info->label_false = old_label_false;
-	info->label_ternary_end = label_end;
 }
 
 /**
@@ -2689,7 +2651,7 @@ static void emit_if_statement(information *const info, const node *const nd)
 	info->label_true = label_if;
 	info->label_false = label_else;
 
-	info->variable_location = LFREE;
+	info->variable_location = LLOGIC;
 	const node condition = statement_if_get_condition(nd);
 	emit_expression(info, &condition);
 
@@ -2740,7 +2702,7 @@ static void emit_while_statement(information *const info, const node *const nd)
 	to_code_unconditional_branch(info, label_condition);
 	to_code_label(info, label_condition);
 
-	info->variable_location = LFREE;
+	info->variable_location = LLOGIC;
 	const node condition = statement_while_get_condition(nd);
 	emit_expression(info, &condition);
 
@@ -2790,7 +2752,7 @@ static void emit_do_statement(information *const info, const node *const nd)
 	to_code_unconditional_branch(info, label_condition);
 	to_code_label(info, label_condition);
 
-	info->variable_location = LFREE;
+	info->variable_location = LLOGIC;
 	const node condition = statement_do_get_condition(nd);
 	emit_expression(info, &condition);
 
@@ -2839,7 +2801,7 @@ static void emit_for_statement(information *const info, const node *const nd)
 		to_code_unconditional_branch(info, label_condition);
 		to_code_label(info, label_condition);
 
-		info->variable_location = LFREE;
+		info->variable_location = LLOGIC;
 		const node condition = statement_for_get_condition(nd);
 		emit_expression(info, &condition);
 		check_type_and_branch(info, expression_get_type(&condition));
@@ -2852,6 +2814,7 @@ static void emit_for_statement(information *const info, const node *const nd)
 	to_code_label(info, label_incr);
 	if (statement_for_has_increment(nd))
 	{
+		info->variable_location = LFREE;
 		const node increment = statement_for_get_increment(nd);
 		emit_expression(info, &increment);
 	}
@@ -2976,6 +2939,7 @@ static void emit_switch_statement(information *const info, const node *const nd)
 	const size_t old_label_break = info->label_break;
 	const size_t old_label_switch = info->label_switch;
 
+	info->variable_location = LFREE;
 	const node condition = statement_switch_get_condition(nd);
 	emit_expression(info, &condition);
 
@@ -3079,6 +3043,7 @@ static void emit_statement(information *const info, const node *const nd)
 			return;
 
 		case STMT_EXPR:
+			info->variable_location = LFREE;
 			emit_expression(info, nd);
 			return;
 
@@ -3375,7 +3340,7 @@ int encode_to_llvm(const workspace *const ws, syntax *const sx)
 	info.was_fabs = false;
 	info.is_main = false;
 	info.is_call = false;
-	info.label_phi_previous = 0;
+	info.label_current = 0;
 	for (size_t i = 0; i < BEGIN_USER_FUNC; i++)
 	{
 		info.was_function[i] = false;
-- 
2.43.0


From 95ea7608f995ee7d38027c159d63180b31850c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:13 +0000
Subject: [PATCH 22/49] fix: LLVM code converts characters and integers in
 arguments, returned values and conditional expressions

---
 libs/compiler/llvmgen.c | 67 ++++++++++++++++++++++++++++++++---------
 1 file changed, 52 insertions(+), 15 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 110fdde..5e4502e 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -90,6 +90,7 @@ typedef struct information
 	bool was_fabs;							/**< Истина, если был вызов fabs */
 	bool was_function[BEGIN_USER_FUNC];		/**< Массив флагов библиотечных функций из builtin_t */
 	bool is_main;							/**< Истина, если обрабатывается main */
+	item_t return_type;						/**< Тип возвращаемого значения обрабатываемой функции */
 	bool is_call;							/**< Истина, если обрабатывается вызов функции */
 
 	size_t func_ref;						/**< id функции */
@@ -634,6 +635,27 @@ static void to_code_char_to_int(information *const info, const size_t reg)
 }
 
 
+static void to_code_answer_conversion(information *const info, const item_t source_type, const item_t target_type)
+{
+	if (info->answer_kind != AREG)
+	{
+		return;
+	}
+
+	const type_t source_class = type_get_class(info->sx, source_type);
+	const type_t target_class = type_get_class(info->sx, target_type);
+	if (source_class == TYPE_CHARACTER && target_class == TYPE_INTEGER)
+	{
+		to_code_char_to_int(info, info->answer_reg);
+		info->answer_reg = info->register_num - 1;
+	}
+	else if (source_class == TYPE_INTEGER && target_class == TYPE_CHARACTER)
+	{
+		to_code_int_to_char(info, info->answer_reg);
+		info->answer_reg = info->register_num - 1;
+	}
+}
+
 static void check_type_and_branch(information *const info, const item_t type)
 {
 	switch (info->answer_kind)
@@ -1007,6 +1029,13 @@ static void emit_call_expression(information *const info, const node *const nd)
 		info->was_function[func_ref] = true;
 	}
 
+	item_t callee_type = expression_get_type(&callee);
+	if (type_is_pointer(info->sx, callee_type))
+	{
+		callee_type = type_pointer_get_element_type(info->sx, callee_type);
+	}
+	const size_t parameters = type_function_get_parameter_amount(info->sx, callee_type);
+
 	size_t func_reg = 0;
 	if (!ident_is_local(info->sx, func_ref))
 	{
@@ -1026,6 +1055,16 @@ static void emit_call_expression(information *const info, const node *const nd)
 		// TODO: сделать параметры других типов (логическое)
 		arguments_type[i] = info->answer_kind;
 
+		if (i < parameters)
+		{
+			const item_t parameter_type = type_function_get_parameter_type(info->sx, callee_type, i);
+			if (type_is_integer(info->sx, parameter_type) && type_is_integer(info->sx, arguments_value_type[i]))
+			{
+				to_code_answer_conversion(info, arguments_value_type[i], parameter_type);
+				arguments_value_type[i] = parameter_type;
+			}
+		}
+
 		if (info->answer_kind == AREG || info->answer_kind == ALOGIC || info->answer_kind == AMEM)
 		{
 			arguments[i] = info->answer_reg;
@@ -1873,6 +1912,7 @@ static void ternary_answer_to_io(information *const info, const item_t type, con
  */
 static void emit_ternary_expression(information *const info, const node *const nd)
 {
+	const item_t type = expression_get_type(nd);
 	const size_t old_label_true = info->label_true;
 	const size_t old_label_false = info->label_false;
 	const size_t label_then = info->label_num++;
@@ -1893,6 +1933,7 @@ static void emit_ternary_expression(information *const info, const node *const n
 	info->variable_location = LFREE;
 	const node LHS = expression_ternary_get_LHS(nd);
 	emit_expression(info, &LHS);
+	to_code_answer_conversion(info, expression_get_type(&LHS), type);
 
 	const answer_t then_answer = info->answer_kind;
 	const item_t then_reg = info->answer_reg;
@@ -1907,6 +1948,7 @@ static void emit_ternary_expression(information *const info, const node *const n
 	info->variable_location = LFREE;
 	const node RHS = expression_ternary_get_RHS(nd);
 	emit_expression(info, &RHS);
+	to_code_answer_conversion(info, expression_get_type(&RHS), type);
 
 	const answer_t else_answer = info->answer_kind;
 	const item_t else_reg = info->answer_reg;
@@ -1918,7 +1960,6 @@ static void emit_ternary_expression(information *const info, const node *const n
 	to_code_unconditional_branch(info, label_end);
 	to_code_label(info, label_end);
 
-	const item_t type = expression_get_type(nd);
 	uni_printf(info->sx->io, " %%.%zu = phi ", info->register_num);
 	type_to_io(info, type);
 	uni_printf(info->sx->io, " [ ");
@@ -2283,19 +2324,7 @@ static void emit_variable_declaration(information *const info, const node *const
 			const node initializer = declaration_variable_get_initializer(nd);
 			emit_expression(info, &initializer);
 
-			if (info->answer_kind == AREG && type_get_class(info->sx, type) == TYPE_INTEGER
-				&& type_get_class(info->sx, expression_get_type(&initializer)) == TYPE_CHARACTER)
-			{
-				to_code_char_to_int(info, info->answer_reg);
-				info->answer_reg = info->register_num - 1;
-			}
-
-			if (info->answer_kind == AREG && type_get_class(info->sx, type) == TYPE_CHARACTER
-				&& type_get_class(info->sx, expression_get_type(&initializer)) == TYPE_INTEGER)
-			{
-				to_code_int_to_char(info, info->answer_reg);
-				info->answer_reg = info->register_num - 1;
-			}
+			to_code_answer_conversion(info, expression_get_type(&initializer), type);
 
 			if (info->answer_kind == ACONST)
 			{
@@ -2488,6 +2517,7 @@ static void emit_function_definition(information *const info, const node *const
 	const item_t ret_type = ref_ident != info->sx->ref_main ? type_function_get_return_type(info->sx, func_type) : TYPE_INTEGER;
 	const size_t parameters = type_function_get_parameter_amount(info->sx, func_type);
 	info->was_dynamic = false;
+	info->return_type = ret_type;
 
 	uni_printf(info->sx->io, "define ");
 	type_to_io(info, ret_type);
@@ -2866,7 +2896,13 @@ static void emit_return_statement(information *const info, const node *const nd)
 		const node expression = statement_return_get_expression(nd);
 		emit_expression(info, &expression);
 
-		const item_t answer_type = expression_get_type(&expression);
+		item_t answer_type = expression_get_type(&expression);
+		if (type_is_integer(info->sx, answer_type) && type_is_integer(info->sx, info->return_type))
+		{
+			to_code_answer_conversion(info, answer_type, info->return_type);
+			answer_type = info->return_type;
+		}
+
 		if (info->answer_kind == ACONST && type_is_integer(info->sx, answer_type))
 		{
 			uni_printf(info->sx->io, " ret ");
@@ -3340,6 +3376,7 @@ int encode_to_llvm(const workspace *const ws, syntax *const sx)
 	info.was_fabs = false;
 	info.is_main = false;
 	info.is_call = false;
+	info.return_type = TYPE_VOID;
 	info.label_current = 0;
 	for (size_t i = 0; i < BEGIN_USER_FUNC; i++)
 	{
-- 
2.43.0


From da0b6ed1f73a7b947291d2d62692152f5655c492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:15 +0000
Subject: [PATCH 23/49] fix: LLVM code of switch with a constant condition

---
 libs/compiler/llvmgen.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 5e4502e..75a31d7 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -2978,6 +2978,8 @@ static void emit_switch_statement(information *const info, const node *const nd)
 	info->variable_location = LFREE;
 	const node condition = statement_switch_get_condition(nd);
 	emit_expression(info, &condition);
+	const bool is_const = info->answer_kind == ACONST;
+	const item_t condition_const = info->answer_const;
 
 	const node body = statement_switch_get_body(nd);
 	size_t case_num = 0;
@@ -3013,7 +3015,15 @@ static void emit_switch_statement(information *const info, const node *const nd)
 
 	uni_printf(info->sx->io, " switch ");
 	type_to_io(info, expression_get_type(&condition));
-	uni_printf(info->sx->io, " %%.%zu, label %%label%zu [\n", info->answer_reg
+	if (is_const)
+	{
+		uni_printf(info->sx->io, " %" PRIitem, condition_const);
+	}
+	else
+	{
+		uni_printf(info->sx->io, " %%.%zu", info->answer_reg);
+	}
+	uni_printf(info->sx->io, ", label %%label%zu [\n"
 		, default_label == SIZE_MAX ? label_end : label_first - default_label);
 	for (size_t i = 0; i < case_num; i++)
 	{
-- 
2.43.0


From ebd7d8f56e6523999814a46bb1fdbed7402ea817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:51 +0000
Subject: [PATCH 24/49] fix: LLVM code of the address of a member and of a
 structure initialised with an expression

---
 libs/compiler/llvmgen.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 75a31d7..96c269b 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -1276,9 +1276,9 @@ static void emit_member_expression(information *const info, const node *const nd
 	{
 		info->register_num++;
 		to_code_load(info, info->register_num, info->register_num - 1, elem_type, true, true);
-		info->answer_kind = AREG;
 	}
 
+	info->answer_kind = AREG;
 	info->answer_reg = info->register_num++;
 }
 
@@ -2313,17 +2313,15 @@ static void emit_variable_declaration(information *const info, const node *const
 			info->variable_location = LFREE;
 			info->request_reg = id;
 
-			if (type_is_structure(info->sx, type))
+			const node initializer = declaration_variable_get_initializer(nd);
+			if (type_is_structure(info->sx, type) && expression_get_class(&initializer) == EXPR_INITIALIZER)
 			{
-				const node initializer = declaration_variable_get_initializer(nd);
 				emit_initialization(info, &initializer, id, type);
 
 				return;
 			}
 
-			const node initializer = declaration_variable_get_initializer(nd);
 			emit_expression(info, &initializer);
-
 			to_code_answer_conversion(info, expression_get_type(&initializer), type);
 
 			if (info->answer_kind == ACONST)
-- 
2.43.0


From c93be4acba6da9ee795db068e088c18cf97fd194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:23 +0000
Subject: [PATCH 25/49] fix: fold operators applied to character literals

---
 libs/compiler/builder.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index f56c5d7..5fac1e7 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -94,6 +94,7 @@ static node fold_unary_expression(builder *const bldr, const item_t type, const
 		}
 
 		case TYPE_ENUM:
+		case TYPE_CHARACTER:
 		case TYPE_INTEGER:
 		{
 			const item_t value = expression_literal_get_integer(expr);
@@ -146,6 +147,7 @@ static node fold_binary_expression(builder *const bldr, const item_t type
 	switch (type_get_class(bldr->sx, expression_get_type(LHS)))
 	{
 		case TYPE_ENUM:
+		case TYPE_CHARACTER:
 		case TYPE_INTEGER:
 		case TYPE_BOOLEAN:
 		{
-- 
2.43.0


From 8283ffbb04052106e2dc631e052f14569abf6fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:50 +0000
Subject: [PATCH 26/49] fix: the compiler no longer divides by a constant zero
 while folding

---
 libs/compiler/builder.c |  7 +++++++
 libs/compiler/llvmgen.c | 14 ++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index 5fac1e7..8f3bb44 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -153,6 +153,13 @@ static node fold_binary_expression(builder *const bldr, const item_t type
 		{
 			const item_t left_value = expression_literal_get_integer(LHS);
 			const item_t right_value = expression_literal_get_integer(RHS);
+
+			// Частное не определено или не представимо, деление остаётся на время исполнения
+			if ((op == BIN_DIV || op == BIN_REM) && (right_value == 0 || (right_value == -1 && left_value == ITEM_MIN)))
+			{
+				return expression_binary(type, LHS, RHS, op, loc);
+			}
+
 			node_remove(LHS);
 			node_remove(RHS);
 
diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 96c269b..5452fb4 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -367,6 +367,16 @@ static void to_code_operation_const_reg_integer(information *const info, const b
 	uni_printf(info->sx->io, " %" PRIitem ", %%.%zu\n", fst, snd);
 }
 
+static void to_code_operation_const_const_integer(information *const info, const binary_t operation
+	, const item_t fst, const item_t snd, const item_t type)
+{
+	uni_printf(info->sx->io, " %%.%zu = ", info->register_num);
+	operation_to_io(info, operation, TYPE_INTEGER);
+	uni_printf(info->sx->io, " ");
+	type_to_io(info, type);
+	uni_printf(info->sx->io, " %" PRIitem ", %" PRIitem "\n", fst, snd);
+}
+
 static void to_code_operation_const_reg_double(information *const info, const binary_t operation
 	, const double fst, const size_t snd)
 {
@@ -1632,6 +1642,10 @@ static void emit_integral_expression(information *const info, const node *const
 	{
 		to_code_operation_const_reg_integer(info, operation, left_const, right_reg, operation_type);
 	}
+	else if (left_kind == ACONST && right_kind == ACONST && type_is_integer(info->sx, operation_type))
+	{
+		to_code_operation_const_const_integer(info, operation, left_const, right_const, operation_type);
+	}
 	else if (left_kind == ACONST && right_kind == AREG) // double
 	{
 		to_code_operation_const_reg_double(info, operation, left_const_double, right_reg);
-- 
2.43.0


From 3bde9a5f89870433715e5d5e73b40aaf46ff4ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:03 +0000
Subject: [PATCH 27/49] fix: increment and decrement of a const object are
 errors

---
 libs/compiler/builder.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index 8f3bb44..40fddd4 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -822,6 +822,12 @@ node build_unary_expression(builder *const bldr, node *const operand, const unar
 				return node_broken();
 			}
 
+			if (type_is_const(bldr->sx, operand_type))
+			{
+				semantic_error(bldr, op_loc, assign_to_const);
+				return node_broken();
+			}
+
 			return expression_unary(operand_type, RVALUE, operand, op_kind, loc);
 		}
 
-- 
2.43.0


From 9bf854463b04d7d23cfd51ebf3d6c9ce45b032de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:31 +0000
Subject: [PATCH 28/49] fix: values of compatible types differing in const may
 be compared and chosen between

---
 libs/compiler/builder.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index 40fddd4..135b1db 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -56,6 +56,14 @@ static void semantic_warning(builder *const bldr, const location loc, warning_t
 }
 
 
+static bool types_are_compatible(const syntax *const sx, const item_t fst, const item_t snd)
+{
+	const item_t fst_unqualified = type_is_const(sx, fst) ? type_const_get_unqualified_type(sx, fst) : fst;
+	const item_t snd_unqualified = type_is_const(sx, snd) ? type_const_get_unqualified_type(sx, snd) : snd;
+
+	return fst_unqualified == snd_unqualified;
+}
+
 static item_t usual_arithmetic_conversions(const syntax *const sx, node *const LHS, node *const RHS)
 {
 	const item_t LHS_type = expression_get_type(LHS);
@@ -997,7 +1005,7 @@ node build_binary_expression(builder *const bldr, node *const LHS, node *const R
 
 			if ((type_is_pointer(bldr->sx, left_type) && type_is_null_pointer(right_type))
 				|| (type_is_null_pointer(left_type) && type_is_pointer(bldr->sx, right_type))
-				|| left_type == right_type)
+				|| types_are_compatible(bldr->sx, left_type, right_type))
 			{
 				return fold_binary_expression(bldr, TYPE_BOOLEAN, LHS, RHS, op_kind, loc);
 			}
@@ -1102,7 +1110,7 @@ node build_ternary_expression(builder *const bldr, node *const cond, node *const
 	}
 
 	if ((type_is_null_pointer(LHS_type) && type_is_pointer(bldr->sx, RHS_type))
-		|| (LHS_type == RHS_type))
+		|| types_are_compatible(bldr->sx, LHS_type, RHS_type))
 	{
 		return expression_ternary(RHS_type, cond, LHS, RHS, loc);
 	}
-- 
2.43.0


From 89843121108c789e2409974f9f1b9e56a3bc708c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:45 +0000
Subject: [PATCH 29/49] fix: const types of different types are different types

---
 libs/compiler/syntax.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/libs/compiler/syntax.c b/libs/compiler/syntax.c
index d49c94a..0900191 100644
--- a/libs/compiler/syntax.c
+++ b/libs/compiler/syntax.c
@@ -128,11 +128,6 @@ static inline bool type_is_equal(const syntax *const sx, const size_t first, con
 	size_t length = 1;
 	const item_t type = vector_get(&sx->types, first);
 
-	if (type == TYPE_CONST)
-	{
-		return type_is_equal(sx, type_const_get_unqualified_type(sx, first), type_const_get_unqualified_type(sx, second));
-	}
-
 	// Определяем, сколько полей надо сравнивать для различных типов записей
 	if (type == TYPE_STRUCTURE || type == TYPE_FUNCTION)
 	{
-- 
2.43.0


From d330b5129cee6ccbb98b5346937cbec3ba44dc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:35 +0000
Subject: [PATCH 30/49] fix: a constant floating operand is not converted from
 an integer

---
 libs/compiler/builder.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index 135b1db..cff329a 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -71,8 +71,14 @@ static item_t usual_arithmetic_conversions(const syntax *const sx, node *const L
 
 	if (type_is_floating(sx, LHS_type) || type_is_floating(sx, RHS_type))
 	{
-		*LHS = build_cast_expression(TYPE_FLOATING, LHS);
-		*RHS = build_cast_expression(TYPE_FLOATING, RHS);
+		if (!type_is_floating(sx, LHS_type))
+		{
+			*LHS = build_cast_expression(TYPE_FLOATING, LHS);
+		}
+		if (!type_is_floating(sx, RHS_type))
+		{
+			*RHS = build_cast_expression(TYPE_FLOATING, RHS);
+		}
 
 		return TYPE_FLOATING;
 	}
-- 
2.43.0


From 7405370952fe1dc2bb908a48d4619fb047198a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:35 +0000
Subject: [PATCH 31/49] fix: LLVM code of objects of const types

---
 libs/compiler/llvmgen.c | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 5452fb4..70a56e0 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -144,8 +144,15 @@ static void func_name_to_io(information *const info, const size_t func_ref)
 	uni_printf(info->sx->io, "%s", modified_name);
 }
 
-static void type_to_io(information *const info, const item_t type)
+/** Type without const qualifier, which LLVM types do not have */
+static item_t type_unqualified(const information *const info, const item_t type)
 {
+	return type_is_const(info->sx, type) ? type_const_get_unqualified_type(info->sx, type) : type;
+}
+
+static void type_to_io(information *const info, const item_t qualified_type)
+{
+	const item_t type = type_unqualified(info, qualified_type);
 	const type_t type_class = type_get_class(info->sx, type);
 	switch (type_class)
 	{
@@ -652,8 +659,8 @@ static void to_code_answer_conversion(information *const info, const item_t sour
 		return;
 	}
 
-	const type_t source_class = type_get_class(info->sx, source_type);
-	const type_t target_class = type_get_class(info->sx, target_type);
+	const type_t source_class = type_get_class(info->sx, type_unqualified(info, source_type));
+	const type_t target_class = type_get_class(info->sx, type_unqualified(info, target_type));
 	if (source_class == TYPE_CHARACTER && target_class == TYPE_INTEGER)
 	{
 		to_code_char_to_int(info, info->answer_reg);
@@ -1576,7 +1583,7 @@ static void emit_integral_expression(information *const info, const node *const
 
 	info->variable_location = LFREE;
 	const node LHS = expression_binary_get_LHS(nd);
-	item_t operation_type = expression_get_type(&LHS);
+	item_t operation_type = type_unqualified(info, expression_get_type(&LHS));
 	emit_expression(info, &LHS);
 
 	// TODO: спрятать эти переменные в одну структуру и возвращать ее из emit_expr
@@ -1596,8 +1603,8 @@ static void emit_integral_expression(information *const info, const node *const
 	const double right_const_double = info->answer_const_double;
 	const bool right_const_bool = info->answer_const_bool;
 
-	if (type_get_class(info->sx, expression_get_type(&LHS)) == TYPE_CHARACTER 
-		&& type_get_class(info->sx, expression_get_type(&RHS)) == TYPE_INTEGER)
+	if (type_get_class(info->sx, type_unqualified(info, expression_get_type(&LHS))) == TYPE_CHARACTER 
+		&& type_get_class(info->sx, type_unqualified(info, expression_get_type(&RHS))) == TYPE_INTEGER)
 	{
 		if (left_kind != ACONST)
 		{
@@ -1606,8 +1613,8 @@ static void emit_integral_expression(information *const info, const node *const
 		}
 		operation_type = TYPE_INTEGER;
 	}
-	if (type_get_class(info->sx, expression_get_type(&LHS)) == TYPE_INTEGER 
-		&& type_get_class(info->sx, expression_get_type(&RHS)) == TYPE_CHARACTER)
+	if (type_get_class(info->sx, type_unqualified(info, expression_get_type(&LHS))) == TYPE_INTEGER 
+		&& type_get_class(info->sx, type_unqualified(info, expression_get_type(&RHS))) == TYPE_CHARACTER)
 	{
 		if (right_kind != ACONST)
 		{
@@ -1714,16 +1721,16 @@ static void emit_assignment_expression(information *const info, const node *cons
 
 	size_t result = info->answer_reg;
 
-	if (type_get_class(info->sx, expression_get_type(&LHS)) == TYPE_INTEGER 
-		&& type_get_class(info->sx, expression_get_type(&RHS)) == TYPE_CHARACTER && info->answer_kind != ACONST)
+	if (type_get_class(info->sx, type_unqualified(info, expression_get_type(&LHS))) == TYPE_INTEGER 
+		&& type_get_class(info->sx, type_unqualified(info, expression_get_type(&RHS))) == TYPE_CHARACTER && info->answer_kind != ACONST)
 	{
 		to_code_char_to_int(info, result);
 		result = info->register_num - 1;
 		operation_type = TYPE_INTEGER;
 	}
 
-	if (type_get_class(info->sx, expression_get_type(&LHS)) == TYPE_CHARACTER 
-		&& type_get_class(info->sx, expression_get_type(&RHS)) == TYPE_INTEGER && info->answer_kind != ACONST)
+	if (type_get_class(info->sx, type_unqualified(info, expression_get_type(&LHS))) == TYPE_CHARACTER 
+		&& type_get_class(info->sx, type_unqualified(info, expression_get_type(&RHS))) == TYPE_INTEGER && info->answer_kind != ACONST)
 	{
 		to_code_int_to_char(info, result);
 		result = info->register_num - 1;
-- 
2.43.0


From 77468d99d718c4df542756c5b5db2614c5048a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:13 +0000
Subject: [PATCH 32/49] fix: a boolean or integer constant is not folded with
 null

---
 libs/compiler/builder.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index cff329a..0033ee4 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -153,7 +153,8 @@ static node fold_unary_expression(builder *const bldr, const item_t type, const
 static node fold_binary_expression(builder *const bldr, const item_t type
 	, node *const LHS, node *const RHS, const binary_t op, const location loc)
 {
-	if (expression_get_class(LHS) != EXPR_LITERAL || expression_get_class(RHS) != EXPR_LITERAL)
+	if (expression_get_class(LHS) != EXPR_LITERAL || expression_get_class(RHS) != EXPR_LITERAL
+		|| type_is_null_pointer(expression_get_type(RHS)))
 	{
 		return expression_binary(type, LHS, RHS, op, loc);
 	}
-- 
2.43.0


From b2530ab7574c92d9cf34f8fc112504aa09d3506e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:28 +0000
Subject: [PATCH 33/49] fix: an enumeration without a constant name is left
 instead of reading on

---
 libs/compiler/parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/compiler/parser.c b/libs/compiler/parser.c
index 9b6f1a5..b6b1122 100644
--- a/libs/compiler/parser.c
+++ b/libs/compiler/parser.c
@@ -1082,6 +1082,8 @@ static item_t parse_enum_declaration_list(parser *const prs, const node *const p
 		{
 			parser_error(prs, wait_ident_after_comma_in_enum);
 			skip_until(prs, TK_SEMICOLON | TK_R_BRACE);
+			try_consume_token(prs, TK_R_BRACE);
+			return TYPE_UNDEFINED;
 		}
 
 		const size_t name = token_get_ident_name(&prs->tk);
-- 
2.43.0


From f9b565131c1f4f0e5cd7939bed3cee201629ed44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:38 +0000
Subject: [PATCH 34/49] fix: a structure that is not closed ends at the end of
 the text

---
 libs/compiler/parser.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libs/compiler/parser.c b/libs/compiler/parser.c
index b6b1122..5020ad8 100644
--- a/libs/compiler/parser.c
+++ b/libs/compiler/parser.c
@@ -985,17 +985,22 @@ static item_t parse_struct_declaration(parser *const prs, const node *const pare
 {
 	prs->was_type_def = true;	// FIXME: this is only until global declarations refactoring
 	assert(token_is(&prs->tk, TK_L_BRACE));
-	consume_token(prs);
+	const location l_loc = consume_token(prs);
 
 	node declaration = build_empty_struct_declaration(&prs->bld, name, struct_loc);
 
 	node_vector members = node_vector_create();
-	while (!try_consume_token(prs, TK_R_BRACE))
+	while (token_is_not(&prs->tk, TK_R_BRACE) && token_is_not(&prs->tk, TK_EOF))
 	{
 		const node member = parse_member_declaration(prs, &declaration);
 		node_vector_add(&members, &member);
 	}
 
+	if (!try_consume_token(prs, TK_R_BRACE))
+	{
+		parser_error(prs, expected_r_brace, l_loc);
+	}
+
 	const node result = build_struct_declaration(&prs->bld, &declaration, &members);
 
 	// FIXME: need a more beautiful way to do this
-- 
2.43.0


From 6037e99fb44bf139d1bb7470929a0b351bca6c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:51 +0000
Subject: [PATCH 35/49] fix: block comments beginning or ending with several
 stars

---
 libs/compiler/lexer.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libs/compiler/lexer.c b/libs/compiler/lexer.c
index 28167ed..225bb98 100644
--- a/libs/compiler/lexer.c
+++ b/libs/compiler/lexer.c
@@ -101,7 +101,10 @@ static inline void skip_line_comment(lexer *const lxr)
  */
 static inline void skip_block_comment(lexer *const lxr)
 {
-	while (lxr->character != '*' || scan(lxr) != '/')
+	scan(lxr);	// Звёздочка, начинающая комментарий, не может его закончить
+
+	bool was_star = false;
+	while (!was_star || lxr->character != '/')
 	{
 		if (lxr->character == (char32_t)EOF)
 		{
@@ -109,6 +112,7 @@ static inline void skip_block_comment(lexer *const lxr)
 			return;
 		}
 
+		was_star = lxr->character == '*';
 		scan(lxr);
 	}
 
-- 
2.43.0


From 681f16b04cda47659b38adb62635747a7de8ad56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:51 +0000
Subject: [PATCH 36/49] fix: a string literal ends at the end of the text

---
 libs/compiler/lexer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/compiler/lexer.c b/libs/compiler/lexer.c
index 225bb98..0395124 100644
--- a/libs/compiler/lexer.c
+++ b/libs/compiler/lexer.c
@@ -422,7 +422,7 @@ static token lex_string_literal(lexer *const lxr)
 	while (lxr->character == '"')
 	{
 		scan(lxr);
-		while (lxr->character != '"' && lxr->character != '\n')
+		while (lxr->character != '"' && lxr->character != '\n' && lxr->character != (char32_t)EOF)
 		{
 			vector_add(&lxr->lexstr, get_next_string_elem(lxr));
 			scan(lxr);
-- 
2.43.0


From 0c9e33f7655f2b74f8dae876cb39cce3c245c7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:40 +0000
Subject: [PATCH 37/49] fix: logical negation in preprocessor expressions

---
 libs/macro/computer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/macro/computer.c b/libs/macro/computer.c
index d345b9d..10d182b 100644
--- a/libs/macro/computer.c
+++ b/libs/macro/computer.c
@@ -277,7 +277,7 @@ static inline int computer_const_number(computer *const comp, const item_t pos,
 			case TK_NOT:
 				stack_pop(&comp->operators);
 				stack_pop(&comp->operators);
-				num = num != 0 ? 1 : 0;
+				num = num != 0 ? 0 : 1;
 				break;
 			case TK_U_NEGATION:
 				stack_pop(&comp->operators);
-- 
2.43.0


From 4b98b6cdadc60af040a94ceb68a0c62af4c1cda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:40 +0000
Subject: [PATCH 38/49] fix: unary operators before brackets in preprocessor
 expressions

---
 libs/macro/computer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/macro/computer.c b/libs/macro/computer.c
index 10d182b..7e4af14 100644
--- a/libs/macro/computer.c
+++ b/libs/macro/computer.c
@@ -345,7 +345,8 @@ int computer_push_token(computer *const comp, const size_t pos, const token_t tk
 	{
 		stack_pop(&comp->operators);
 		stack_pop(&comp->operators);
-		return 0;
+		comp->was_number = false;
+		return computer_const_number(comp, (item_t)pos, stack_pop(&comp->numbers), ")");
 	}
 
 	const int priority = computer_compare_priority(previous, tk);
-- 
2.43.0


From 2c91545f4252fb1b1ada72adcd33c62a23cd6f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:13 +0000
Subject: [PATCH 39/49] fix: division by zero in preprocessor expressions

---
 libs/macro/computer.c | 30 ++++++++++++++++++++++++------
 libs/macro/error.c    |  3 +++
 libs/macro/error.h    |  1 +
 3 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/libs/macro/computer.c b/libs/macro/computer.c
index 7e4af14..cb4d4fa 100644
--- a/libs/macro/computer.c
+++ b/libs/macro/computer.c
@@ -166,11 +166,26 @@ static inline int computer_token_without_number(computer *const comp, const item
 static int computer_select_three(computer *const comp)
 {
 	const token_t operator = stack_pop(&comp->operators);
-	stack_pop(&comp->operators);
+	const item_t pos = stack_pop(&comp->operators);
 
 	const item_t second = stack_pop(&comp->numbers);
 	const item_t first = stack_pop(&comp->numbers);
 
+	if (operator == TK_DIV || operator == TK_MOD)
+	{
+		if (second == 0)
+		{
+			computer_error(comp, pos, EXPR_DIVISION_BY_ZERO);
+			return -1;
+		}
+
+		if (second == -1)
+		{
+			// The quotient of the least number is not representable
+			return stack_push(&comp->numbers, operator == TK_DIV ? -first : 0);
+		}
+	}
+
 	switch(operator)
 	{
 		case TK_MULT:
@@ -352,13 +367,12 @@ int computer_push_token(computer *const comp, const size_t pos, const token_t tk
 	const int priority = computer_compare_priority(previous, tk);
 	if (priority > 0)
 	{
-		computer_select_three(comp);
-		return computer_push_token(comp, pos, tk);
+		return computer_select_three(comp) ? -1 : computer_push_token(comp, pos, tk);
 	}
 
-	if (priority == 0)
+	if (priority == 0 && computer_select_three(comp))
 	{
-		computer_select_three(comp);
+		return -1;
 	}
 
 	stack_push(&comp->operators, (item_t)pos);
@@ -421,7 +435,11 @@ item_t computer_pop_result(computer *const comp)
 			return 0;
 		}
 
-		computer_select_three(comp);
+		if (computer_select_three(comp))
+		{
+			return 0;
+		}
+
 		operator = stack_peek(&comp->operators);
 	}
 
diff --git a/libs/macro/error.c b/libs/macro/error.c
index 24f53b2..55e6592 100644
--- a/libs/macro/error.c
+++ b/libs/macro/error.c
@@ -287,6 +287,9 @@ static void get_error(const error_t num, char *const msg, va_list args)
 			sprintf(msg, "в операторе '%s' отсутствует правый операнд", operator);
 		}
 		break;
+		case EXPR_DIVISION_BY_ZERO:
+			sprintf(msg, "деление на ноль в выражении препроцессора");
+			break;
 
 		default:
 			sprintf(msg, "неизвестная ошибка");
diff --git a/libs/macro/error.h b/libs/macro/error.h
index 1c281e6..eb6a852 100644
--- a/libs/macro/error.h
+++ b/libs/macro/error.h
@@ -73,6 +73,7 @@ typedef enum ERROR
 	EXPR_MISSING_BETWEEN,
 	EXPR_NO_LEFT_OPERAND,
 	EXPR_NO_RIGHT_OPERAND,
+	EXPR_DIVISION_BY_ZERO,
 } error_t;
 
 /** Warning codes */
-- 
2.43.0


From 4c29dd95df089a6047391d23fcb35de991172efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:32 +0000
Subject: [PATCH 40/49] fix: end of text inside the arguments of a macro call

---
 libs/macro/parser.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index 506e545..5139b2d 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -650,7 +650,7 @@ static inline size_t parse_brackets(parser *const prs, const size_t index, stora
 		size_t brackets = 0;
 
 		out_set_buffer(prs->io, MAX_VALUE_SIZE);
-		while (brackets != 0 || (character != ',' && character != ')' && character != (char32_t)EOF))
+		while (character != (char32_t)EOF && (brackets != 0 || (character != ',' && character != ')')))
 		{
 			uni_printf(prs->io, "%s", in_get_position(prs->io) != position ? " " : "");
 			uni_print_char(prs->io, uni_scan_char(prs->io));
@@ -663,11 +663,12 @@ static inline size_t parse_brackets(parser *const prs, const size_t index, stora
 			brackets += character != '(' ? character == ')' ? -1 : 0 : 1;
 			position = in_get_position(prs->io);
 			character = skip_lines(prs);
-			if (character == (char32_t)EOF)
-			{
-				parser_error(prs, &loc, ARGS_UNTERMINATED, storage_to_string(prs->stg, index));
-				arg = SIZE_MAX;
-			}
+		}
+
+		if (character == (char32_t)EOF)
+		{
+			parser_error(prs, &loc, ARGS_UNTERMINATED, storage_to_string(prs->stg, index));
+			arg = SIZE_MAX;
 		}
 
 		if (arg != SIZE_MAX)
-- 
2.43.0


From d10ffc5b11729863365f3b18f8e30a1d66ce2b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:01 +0000
Subject: [PATCH 41/49] fix: empty value of a redefined macro

---
 libs/macro/storage.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/libs/macro/storage.c b/libs/macro/storage.c
index 26c1808..faad6e3 100644
--- a/libs/macro/storage.c
+++ b/libs/macro/storage.c
@@ -162,10 +162,7 @@ size_t storage_set_by_index(storage *const stg, const size_t id, const char *val
 	}
 
 	const size_t index = strings_add(&stg->vec, value);
-	if (index != SIZE_MAX)
-	{
-		hash_set_by_index(&stg->hs, id, 0, (item_t)index);
-	}
+	hash_set_by_index(&stg->hs, id, 0, index != SIZE_MAX ? (item_t)index : ITEM_MAX);
 	return id;
 }
 
-- 
2.43.0


From df8c843c63a32dd8bc95c733d64c3b0dbeec8721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:01 +0000
Subject: [PATCH 42/49] fix: empty arguments of a macro call

---
 libs/macro/parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index 5139b2d..bfd8167 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -709,8 +709,9 @@ static inline void parse_observation(parser *const prs, const size_t index, stor
 		if (ch == '#' || utf8_is_letter(ch))
 		{
 			const size_t current = storage_search(stg, prs->io);
+			const char *const argument = storage_get_by_index(stg, current);
 			uni_printf(prs->io, "%s", kw_is_correct(current) || current == SIZE_MAX
-				? storage_last_read(stg) : storage_get_by_index(stg, current));
+				? storage_last_read(stg) : argument != NULL ? argument : "");
 		}
 		else if (ch == '\'' || ch == '"')
 		{
-- 
2.43.0


From 96429c2cf862a839d8b1816d6faa8d0a6fc03b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:05 +0000
Subject: [PATCH 43/49] fix: numbers that do not fit an integer keep their
 value

The value of a literal with more digits than an integer holds was started anew from the
integer part at every further digit, and an exponent that takes an integer literal out of
range wrapped around.
---
 libs/compiler/lexer.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/libs/compiler/lexer.c b/libs/compiler/lexer.c
index 0395124..8813bfc 100644
--- a/libs/compiler/lexer.c
+++ b/libs/compiler/lexer.c
@@ -225,9 +225,9 @@ static token lex_numeric_literal(lexer *const lxr)
 			return token_int_literal((location){ loc_begin, loc_end }, int_value);
 		}
 
-		if ((base == 2 && int_value >= 0x8000000000000000)
+		if (is_integer && ((base == 2 && int_value >= 0x8000000000000000)
 			|| (base == 8 && int_value >= 0x2000000000000000)
-			|| (int_value >= 0x1000000000000000))
+			|| (int_value >= 0x1000000000000000)))
 		{
 			// Переполнение хранилища - конвертируем в double
 			float_value = (double)int_value;
@@ -312,8 +312,15 @@ static token lex_numeric_literal(lexer *const lxr)
 
 		if (is_integer)
 		{
-			for (int64_t i = 0; i < power; i++)
+			float_value = (double)int_value;
+			for (int64_t i = 0; i < power && is_integer; i++)
 			{
+				if (int_value >= 0x1000000000000000)
+				{
+					// Целое значение не помещается в хранилище
+					is_integer = false;
+				}
+
 				int_value *= 10;
 			}
 		}
-- 
2.43.0


From 178b9e5336d27a5efda940e28cf5449eea8cfc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 44/49] fix: a diagnostic without a source line keeps its
 message

---
 libs/utils/logger.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/utils/logger.c b/libs/utils/logger.c
index feef1c3..30e7bc8 100644
--- a/libs/utils/logger.c
+++ b/libs/utils/logger.c
@@ -46,7 +46,6 @@ static const char *const TAG_NOTE = "примечание";
 
 static const char *const ERROR_LOGGER_ARG_NULL = "NULL указатель на строку";
 static const char *const ERROR_LOGGER_ARG_MULTILINE  = "многострочный входной параметр";
-static const char *const ERROR_LOGGER_NO_LOCATION  = "позиционирование невозможно";
 
 
 static void default_error_log(const char *const tag, const char *const msg);
@@ -303,9 +302,10 @@ static inline void log_auto(const logger func, location *const loc, const char *
 
 	char tag[MAX_MSG_SIZE];
 	char line[MAX_MSG_SIZE];
-	if (!loc_get_tag(loc, tag) || !loc_get_code_line(loc, line))
+	const bool has_tag = loc_get_tag(loc, tag);
+	if (!has_tag || !loc_get_code_line(loc, line))
 	{
-		current_error_log(TAG_LOGGER, ERROR_LOGGER_NO_LOCATION);
+		func(has_tag ? tag : TAG_LOGGER, msg);
 		return;
 	}
 
-- 
2.43.0


From c95bd7fd25006b7af642391a6b9a978c4470cc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:12 +0000
Subject: [PATCH 45/49] fix: an error inside a skipped branch is not forgotten

---
 libs/macro/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index bfd8167..923c5e8 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -497,7 +497,6 @@ static inline char32_t skip_macro(parser *const prs, const keyword_t keyword)
 static keyword_t skip_block(parser *const prs, const keyword_t begin)
 {
 	universal_io out = io_create();
-	const bool was_error = prs->was_error;
 	const bool is_recovery_disabled = prs->is_recovery_disabled;
 	const bool is_root_macro = begin == KW_MACRO && !prs->is_macro_processed && out_is_correct(prs->io);
 	prs->is_macro_processed = is_root_macro ? true : prs->is_macro_processed;
@@ -505,6 +504,7 @@ static keyword_t skip_block(parser *const prs, const keyword_t begin)
 	char32_t character = '\0';
 	while (character != (char32_t)EOF)
 	{
+		const bool was_error = prs->was_error;
 		if (!prs->is_macro_processed)
 		{
 			prs->is_recovery_disabled = true;
-- 
2.43.0


From 87d4f95cc3f40a53c191dd4eab2032008d040d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:25 +0000
Subject: [PATCH 46/49] fix: diagnostics get the arguments their messages print

---
 libs/compiler/builder.c      |  2 +-
 libs/compiler/codegen.c      |  2 +-
 libs/compiler/errors.c       |  1 +
 libs/compiler/instructions.c |  2 +-
 libs/compiler/mipsgen.c      | 20 ++++++++++----------
 libs/compiler/operations.c   |  4 ++--
 6 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index 0033ee4..c6025a3 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -333,7 +333,7 @@ static node build_printf_expression(builder *const bldr, node *const callee, nod
 
 	if (argc >= MAX_PRINTF_ARGS)
 	{
-		semantic_error(bldr, r_loc, too_many_printf_args);
+		semantic_error(bldr, r_loc, too_many_printf_args, (size_t)MAX_PRINTF_ARGS);
 		return node_broken();
 	}
 
diff --git a/libs/compiler/codegen.c b/libs/compiler/codegen.c
index 56b1ab5..135ed4c 100644
--- a/libs/compiler/codegen.c
+++ b/libs/compiler/codegen.c
@@ -614,7 +614,7 @@ static lvalue emit_lvalue(encoder *const enc, const node *const nd)
 
 		default:
 			// Cannot be lvalue
-			system_error(node_unexpected, nd);
+			system_error(node_unexpected, (int)expression_get_class(nd));
 			return (lvalue){ .displ = ITEM_MAX };
 	}
 }
diff --git a/libs/compiler/errors.c b/libs/compiler/errors.c
index 53f6544..8006e3d 100644
--- a/libs/compiler/errors.c
+++ b/libs/compiler/errors.c
@@ -442,6 +442,7 @@ static void get_error(const err_t num, char *const msg, va_list args)
 
 		case wrong_init_in_actparam:
 			sprintf(msg, "в инициализаторе-фактическом параметре функции могут быть только константы");
+			break;
 		case array_borders_cannot_be_static_dynamic:
 			sprintf(msg, "массив не может иметь статические и динамические границы");
 			break;
diff --git a/libs/compiler/instructions.c b/libs/compiler/instructions.c
index f52e03b..a5a712d 100644
--- a/libs/compiler/instructions.c
+++ b/libs/compiler/instructions.c
@@ -65,7 +65,7 @@ instruction_t builtin_to_instruction(const builtin_t func)
 		case BI_FCLOSE:					return IC_FCLOSE;
 
 		default:
-			system_error(node_unexpected);
+			system_error(node_unexpected, (int)func);
 			return IC_NOP;
 	}
 }
diff --git a/libs/compiler/mipsgen.c b/libs/compiler/mipsgen.c
index 2ddb375..faff21c 100644
--- a/libs/compiler/mipsgen.c
+++ b/libs/compiler/mipsgen.c
@@ -1049,7 +1049,7 @@ static void rvalue_const_to_io(universal_io *const io, const rvalue *const rval)
 			break;
 
 		default:
-			system_error(node_unexpected);
+			system_error(node_unexpected, (int)rval->type);
 			break;
 	}
 }
@@ -1119,7 +1119,7 @@ static lvalue displacements_add(encoder *const enc, const size_t identifier, con
 	if ((!is_local) && (is_register))	// Запрет на глобальные регистровые переменные
 	{
 		// TODO: кидать соответствующую ошибку
-		system_error(node_unexpected);
+		system_error(node_unexpected, (int)identifier);
 	}
 
 	const size_t index = hash_add(&enc->displacements, identifier, 3);
@@ -1560,7 +1560,7 @@ static lvalue emit_lvalue(encoder *const enc, const node *const nd)
 
 		default:
 			// Не может быть lvalue
-			system_error(node_unexpected, nd);
+			system_error(node_unexpected, (int)expression_get_class(nd));
 			return (lvalue) { .loc.displ = ITEM_MAX };
 	}
 }
@@ -1716,7 +1716,7 @@ static rvalue emit_operand_load(encoder *const enc, const rvalue *const operand,
 			return *operand;
 		default:
 			// Не может быть других операций
-			system_error(node_unexpected);
+			system_error(node_unexpected, (int)operation);
 			return RVALUE_VOID;
 	}
 }
@@ -2505,7 +2505,7 @@ static rvalue emit_unary_expression(encoder *const enc, const node *const nd)
 		}
 
 		default:
-			system_error(node_unexpected);
+			system_error(node_unexpected, (int)operator);
 			return RVALUE_VOID;
 	}
 }
@@ -2730,7 +2730,7 @@ static rvalue emit_assignment_expression(encoder *const enc, const node *const n
 			break;
 
 		default:
-			system_error(node_unexpected);
+			system_error(node_unexpected, (int)operator);
 			return RVALUE_VOID;
 	}
 
@@ -2814,11 +2814,11 @@ static rvalue emit_expression(encoder *const enc, const node *const nd)
 		*/
 
 		case EXPR_INITIALIZER:
-			system_error(node_unexpected);
+			system_error(node_unexpected, (int)expression_get_class(nd));
 			return RVALUE_VOID;
 
 		default:
-			system_error(node_unexpected);
+			system_error(node_unexpected, (int)expression_get_class(nd));
 			return RVALUE_VOID;
 	}
 }
@@ -3721,11 +3721,11 @@ static void emit_statement(encoder *const enc, const node *const nd)
 			break;
 
 		case STMT_CASE:
-			system_error(node_unexpected);
+			system_error(node_unexpected, (int)statement_get_class(nd));
 			break;
 
 		case STMT_DEFAULT:
-			system_error(node_unexpected);
+			system_error(node_unexpected, (int)statement_get_class(nd));
 			break;
 
 		case STMT_COMPOUND:
diff --git a/libs/compiler/operations.c b/libs/compiler/operations.c
index b7cd9ab..a5700bf 100644
--- a/libs/compiler/operations.c
+++ b/libs/compiler/operations.c
@@ -33,7 +33,7 @@ unary_t token_to_unary(const token_t token)
 		case TK_UPB:			return UN_UPB;
 
 		default:
-			system_error(node_unexpected);
+			system_error(node_unexpected, (int)token);
 			return 0;
 	}
 }
@@ -74,7 +74,7 @@ binary_t token_to_binary(const token_t token)
 		case TK_COMMA:					return BIN_COMMA;
 
 		default:
-			system_error(node_unexpected);
+			system_error(node_unexpected, (int)token);
 			return 0;
 	}
 }
-- 
2.43.0


From 7093aedb67bc4df70a1d6a3ea3b05073020403cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:26 +0000
Subject: [PATCH 47/49] fix: errors of the LLVM code generator fail the
 compilation

---
 libs/compiler/llvmgen.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 70a56e0..d17d97a 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -106,6 +106,19 @@ static void emit_one_dimension_initialization(information *const info, const nod
 static void emit_initialization(information *const info, const node *const nd, const item_t id, const item_t arr_type);
 
 
+/**
+ *	Emit an error from encoder, the compilation will fail
+ *
+ *	@param	info		Encoder
+ *	@param	num			Error code
+ */
+static void encoder_error(information *const info, const err_t num)
+{
+	system_error(num);
+	info->sx->rprt.errors++;
+}
+
+
 static item_t array_get_type(information *const info, const item_t array_type)
 {
 	item_t type = array_type;
@@ -527,7 +540,7 @@ static void to_code_alloc_array_static(information *const info, const size_t ind
 	const size_t dim = hash_get_amount_by_index(&info->arrays, index) - 1;
 	if (dim == 0 || dim > MAX_DIMENSIONS)
 	{
-		system_error(such_array_is_not_supported);
+		encoder_error(info, such_array_is_not_supported);
 		return;
 	}
 
@@ -552,7 +565,7 @@ static void to_code_alloc_array_dynamic(information *const info, const size_t in
 	const size_t dim = hash_get_amount_by_index(&info->arrays, index) - 1;
 	if (dim == 0 || dim > MAX_DIMENSIONS)
 	{
-		system_error(such_array_is_not_supported);
+		encoder_error(info, such_array_is_not_supported);
 		return;
 	}
 
@@ -1035,7 +1048,7 @@ static void emit_call_expression(information *const info, const node *const nd)
 	const size_t args = expression_call_get_arguments_amount(nd);
 	if (args > MAX_FUNCTION_ARGS)
 	{
-		system_error(too_many_arguments);
+		encoder_error(info, too_many_arguments);
 		return;
 	}
 
@@ -2482,7 +2495,7 @@ static void emit_variable_declaration(information *const info, const node *const
 				{
 					if (!hash_get_by_index(&info->arrays, index, IS_STATIC))
 					{
-						system_error(array_borders_cannot_be_static_dynamic);
+						encoder_error(info, array_borders_cannot_be_static_dynamic);
 					}
 
 					hash_set_by_index(&info->arrays, index, j, info->answer_const);
@@ -2491,7 +2504,7 @@ static void emit_variable_declaration(information *const info, const node *const
 				{
 					if (hash_get_by_index(&info->arrays, index, IS_STATIC) && j > 1)
 					{
-						system_error(array_borders_cannot_be_static_dynamic);
+						encoder_error(info, array_borders_cannot_be_static_dynamic);
 					}
 
 					hash_set_by_index(&info->arrays, index, j, info->answer_reg);
-- 
2.43.0


From 93dce7d891204713c7f81f51f0a8e5642fed2a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:28 +0000
Subject: [PATCH 48/49] fix: numbers, places and enumerators from 1000 on are
 no type names

---
 libs/compiler/builder.c | 2 +-
 libs/compiler/parser.c  | 4 ++--
 libs/compiler/syntax.c  | 8 ++++----
 libs/compiler/syntax.h  | 5 ++++-
 4 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index c6025a3..ddecef1 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -1218,7 +1218,7 @@ node build_struct_declaration(builder *const bldr, node *const declaration, node
 
 	const size_t name = declaration_struct_get_name(declaration);
 	const item_t type = type_structure(bldr->sx, &types, &names);
-	const size_t id = ident_add(bldr->sx, name, 1000, type, 0);
+	const size_t id = ident_add(bldr->sx, name, KIND_TYPE_SPECIFIER, type, 0);
 
 	vector_clear(&types);
 	vector_clear(&names);
diff --git a/libs/compiler/parser.c b/libs/compiler/parser.c
index 5020ad8..1c8e42e 100644
--- a/libs/compiler/parser.c
+++ b/libs/compiler/parser.c
@@ -878,7 +878,7 @@ static item_t parse_type_specifier(parser *const prs, const node *const parent)
 			{
 				const size_t repr = token_get_ident_name(&prs->tk);
 				consume_token(prs);
-				to_identab(prs, repr, 1000, type);
+				to_identab(prs, repr, KIND_TYPE_SPECIFIER, type);
 				prs->was_type_def = true;
 				if (token_is_not(&prs->tk, TK_SEMICOLON))
 				{
@@ -1155,7 +1155,7 @@ static item_t parse_enum_specifier(parser *const prs, const node *const parent)
 			if (token_is(&prs->tk, TK_L_BRACE))
 			{
 				const item_t type = parse_enum_declaration_list(prs, parent);
-				const size_t id = to_identab(prs, repr, 1000, type);
+				const size_t id = to_identab(prs, repr, KIND_TYPE_SPECIFIER, type);
 				prs->was_type_def = true;
 				return ident_get_type(prs->sx, (size_t)id);
 			}
diff --git a/libs/compiler/syntax.c b/libs/compiler/syntax.c
index 0900191..04a5f68 100644
--- a/libs/compiler/syntax.c
+++ b/libs/compiler/syntax.c
@@ -424,12 +424,12 @@ size_t ident_add(syntax *const sx, const size_t repr, const item_t kind, const i
 		ident_set_type(sx, last_id, 0);
 		ident_set_displ(sx, last_id, 0);
 	}
-	else if (kind >= 1000)
+	else if (kind == KIND_TYPE_SPECIFIER)
 	{
-		// Это описание типа, а (type-1000) – это номер инициирующей процедуры
+		// Это описание типа
 		ident_set_displ(sx, last_id, kind);
 	}
-	else if (kind > 1 && type < 1000)
+	else if (kind > 1)
 	{
 		// Это функция, и в поле displ находится её номер
 		ident_set_displ(sx, last_id, kind);
@@ -497,7 +497,7 @@ int ident_set_displ(syntax *const sx, const size_t index, const item_t displ)
 
 bool ident_is_type_specifier(syntax *const sx, const size_t index)
 {
-	return ident_get_displ(sx, index) >= 1000;
+	return ident_get_displ(sx, index) == KIND_TYPE_SPECIFIER;
 }
 
 bool ident_is_local(const syntax *const sx, const size_t index)
diff --git a/libs/compiler/syntax.h b/libs/compiler/syntax.h
index 6a80122..de9b45c 100644
--- a/libs/compiler/syntax.h
+++ b/libs/compiler/syntax.h
@@ -29,6 +29,9 @@
 
 #define MAX_STRING_LENGTH 128
 
+/** Kind (and displacement) of type specifiers, can be neither a function number nor a displacement */
+#define KIND_TYPE_SPECIFIER (ITEM_MAX - 2)
+
 
 #ifdef __cplusplus
 extern "C" {
@@ -216,7 +219,7 @@ size_t func_reserve(syntax *const sx);
  *						@c  0 for variable,
  *						@c  1 for label,
  *						@c  funcnum for function,
- *						@c  >= @c 100 for type specifier
+ *						@c  KIND_TYPE_SPECIFIER for type specifier
  *	@param	type		New identifier type
  *	@param	func_def	@c 0 for function without args,
  *						@c 1 for function definition,
-- 
2.43.0


From 650453ca977422e7cdc511445ed09ab44c7546c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:10 +0000
Subject: [PATCH 49/49] fix: LLVM: declare only structures, not words of other
 type descriptions that look like one

Every word of the table of types was taken for the beginning of a description; a reference to type 1001 (or a name with that
number) printed a structure declaration of rubbish that LLVM rejects.
---
 libs/compiler/llvmgen.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index d17d97a..7be66d1 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -3229,12 +3229,24 @@ static void architecture(const workspace *const ws, syntax *const sx)
 	}
 }
 
+// Слово таблицы типов является началом описания типа, а не его частью
+static bool is_type_beginning(const syntax *const sx, const size_t index)
+{
+	size_t record = sx->start_type;
+	while (record >= index && record != 0)
+	{
+		record = (size_t)vector_get(&sx->types, record);
+	}
+
+	return record + 1 == index;
+}
+
 static void structs_declaration(information *const info)
 {
 	const size_t types = vector_size(&info->sx->types);
 	for (size_t i = 0; i < types; i++)
 	{
-		if (type_is_structure(info->sx, (item_t)i))
+		if (type_is_structure(info->sx, (item_t)i) && is_type_beginning(info->sx, i))
 		{
 			uni_printf(info->sx->io, "%%struct_opt.%zu = type { ", i);
 
-- 
2.43.0

