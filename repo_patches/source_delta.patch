From c11aed23bfcda7e076a317e96347a57aabfe1657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:06 +0000
Subject: [PATCH 01/57] fix: PCR operand with target address 0 encoded as
 offset 0

---
 src/instr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instr.c b/src/instr.c
index 911c0c8..4a04d94 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -291,7 +291,7 @@ static void instr_indexed2(_Bool indirect, struct node const *arg0, struct node
 		goto invalid_mode;
 	}
 
-	if (arg0_type == node_type_int && arg0_attr == node_attr_none
+	if (!pcr && arg0_type == node_type_int && arg0_attr == node_attr_none
 	    && arg0->data.as_int == 0) {
 		arg0_type = node_type_empty;
 	}
-- 
2.43.0


From 38287a18b5a8bbc6cc3aa88652556266d263238e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:06 +0000
Subject: [PATCH 02/57] fix: zero offset from W did not use the no-offset form

---
 src/instr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/instr.c b/src/instr.c
index 4a04d94..5b10078 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -176,6 +176,7 @@ static struct {
 	{ idx_type_xyus, node_attr_none,     off_type_reg_f, 0x8a, idx_indirect_ok },
 	{ idx_type_xyus, node_attr_none,     off_type_reg_w, 0x8e, idx_indirect_ok },
 	{ idx_type_w,    node_attr_none,     off_type_none,  0x8f, idx_indirect_ok_6309 },
+	{ idx_type_w,    node_attr_none,     off_type_zero,  0x8f, idx_indirect_ok_6309 },
 	{ idx_type_w,    node_attr_none,     off_type_16bit, 0xaf, idx_indirect_ok_6309 },
 	{ idx_type_w,    node_attr_postinc2, off_type_none,  0xcf, idx_indirect_ok_6309 },
 	{ idx_type_w,    node_attr_predec2,  off_type_none,  0xef, idx_indirect_ok_6309 },
-- 
2.43.0


From acb8fa7b951bef3ee57323a8622d07df95b1f297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:06 +0000
Subject: [PATCH 03/57] fix: time taken constraining relative values depended
 on their magnitude

---
 src/instr.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/instr.c b/src/instr.c
index 5b10078..5bbab8e 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -79,11 +79,7 @@ void instr_immediate(struct opcode const *op, struct node const *args) {
  * to be range tested. */
 
 static int to_rel16(int64_t i) {
-	while (i < -32768)
-		i += 65536;
-	while (i > 32767)
-		i -= 65536;
-	return i;
+	return (int16_t)(uint16_t)i;
 }
 
 void instr_rel(struct opcode const *op, struct node const *args) {
-- 
2.43.0


From fbf081544dcbde201501fa66ee6c157581ed33d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:13 +0000
Subject: [PATCH 04/57] fix: operands with no integer value were silently
 assembled

---
 src/instr.c | 56 +++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 41 insertions(+), 15 deletions(-)

diff --git a/src/instr.c b/src/instr.c
index 5bbab8e..12d8552 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -28,6 +28,16 @@ option) any later version.
 
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
+/* Get integer value of an operand, which may be undefined at this point.  An
+ * operand that is defined but has no integer value is an error. */
+
+static struct node *operand_int(struct node *arg) {
+	struct node *n = eval_int(arg);
+	if (!n && node_type_of(arg) != node_type_undef)
+		error(error_type_syntax, "invalid addressing mode");
+	return n;
+}
+
 /*
  * Inherent instructions.  No arguments.
  */
@@ -54,7 +64,7 @@ void instr_immediate(struct opcode const *op, struct node const *args) {
 		return;
 	}
 	section_emit_op(op->immediate);
-	struct node *tmp = eval_int(arga[0]);
+	struct node *tmp = operand_int(arga[0]);
 	uint32_t value = 0;
 	if (tmp) {
 		value = tmp->data.as_int;
@@ -89,22 +99,29 @@ void instr_rel(struct opcode const *op, struct node const *args) {
 		error(error_type_syntax, "invalid number of arguments");
 		return;
 	}
+	if (node_attr_of(arga[0]) == node_attr_immediate) {
+		error(error_type_syntax, "invalid addressing mode");
+		return;
+	}
 	section_emit_op(op->immediate);
-	if (node_type_of(arga[0]) != node_type_int) {
+	struct node *arg = operand_int(arga[0]);
+	if (!arg) {
 		if ((op->type & OPCODE_EXT_TYPE) == OPCODE_REL8)
 			section_emit_pad(1);
 		else
 			section_emit_pad(2);
 		return;
 	}
-	int rel8 = to_rel16(arga[0]->data.as_int - (cur_section->pc + 1));
+	enum node_attr attr = node_attr_of(arg);
+	int rel8 = to_rel16(arg->data.as_int - (cur_section->pc + 1));
+	node_free(arg);
 	_Bool rel8v = (rel8 < -128 || rel8 > 127);
 	if ((op->type & OPCODE_EXT_TYPE) == OPCODE_REL8) {
 		if (rel8v)
 			error(error_type_out_of_range, "8-bit relative value out of range");
 		section_emit_uint8(rel8);
 	} else {
-		if (!rel8v && node_attr_of(arga[0]) != node_attr_16bit)
+		if (!rel8v && attr != node_attr_16bit)
 			error(error_type_inefficient, "16-bit relative value could be represented in 8 bits");
 		section_emit_uint16(rel8 - 1);
 	}
@@ -434,7 +451,7 @@ void instr_address(struct opcode const *op, struct node const *args, int imm8_va
 		return;
 	}
 
-	struct node *arg = eval_int(arga[0]);
+	struct node *arg = operand_int(arga[0]);
 	enum node_attr attr = node_attr_16bit;
 	unsigned addr = cur_section->pc;
 	if (arg) {
@@ -479,8 +496,11 @@ void instr_imm8_mem(struct opcode const *op, struct node const *args) {
 		return;
 	}
 	int imm8_val = 0;
-	if (node_type_of(arga[0]) == node_type_int)
-		imm8_val = arga[0]->data.as_int;
+	struct node *imm8 = operand_int(arga[0]);
+	if (imm8) {
+		imm8_val = imm8->data.as_int;
+		node_free(imm8);
+	}
 	struct node *newa = node_new_array();
 	newa->data.as_array.nargs = nargs - 1;
 	newa->data.as_array.args = arga + 1;
@@ -668,25 +688,31 @@ void instr_reg_mem(struct opcode const *op, struct node const *args) {
 		goto invalid_register;
 	}
 
-	if (node_type_of(arga[1]) == node_type_int) {
-		if (arga[1]->data.as_int < 0 || arga[1]->data.as_int > 7) {
+	struct node *src_bit = operand_int(arga[1]);
+	if (src_bit) {
+		if (src_bit->data.as_int < 0 || src_bit->data.as_int > 7) {
 			error(error_type_out_of_range, "bad source bit");
 		} else {
-			pbyte |= (arga[1]->data.as_int << 3);
+			pbyte |= (src_bit->data.as_int << 3);
 		}
+		node_free(src_bit);
 	}
-	if (node_type_of(arga[2]) == node_type_int) {
-		if (arga[2]->data.as_int < 0 || arga[2]->data.as_int > 7) {
+	struct node *dst_bit = operand_int(arga[2]);
+	if (dst_bit) {
+		if (dst_bit->data.as_int < 0 || dst_bit->data.as_int > 7) {
 			error(error_type_out_of_range, "bad destination bit");
 		} else {
-			pbyte |= arga[2]->data.as_int;
+			pbyte |= dst_bit->data.as_int;
 		}
+		node_free(dst_bit);
 	}
 
 	section_emit_op(op->direct);
 	section_emit_uint8(pbyte);
-	if (node_type_of(arga[3]) == node_type_int) {
-		section_emit_uint8(arga[3]->data.as_int);
+	struct node *addr = operand_int(arga[3]);
+	if (addr) {
+		section_emit_uint8(addr->data.as_int);
+		node_free(addr);
 	} else {
 		section_emit_pad(1);
 	}
-- 
2.43.0


From 296467eac92ceadf7d6e129a97c8675931239dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:14 +0000
Subject: [PATCH 05/57] fix: TFR & EXG accepted registers with no encoding,
 used uninitialised values

---
 src/instr.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/instr.c b/src/instr.c
index 12d8552..b7feeb5 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -553,14 +553,19 @@ void instr_pair(struct opcode const *op, struct node const *args) {
 		return;
 	}
 
-	int nibble[2];
+	int nibble[2] = { 0, 0 };
 	int type[2];
-	int size[2];
+	// undefined arguments match any size
+	int size[2] = { 16 | 8, 16 | 8 };
 	for (int i = 0; i < 2; i++) {
 		type[i] = node_type_of(arga[i]);
 		if (type[i] == node_type_reg) {
 			nibble[i] = reg_tfr_nibble[arga[i]->data.as_reg];
 			size[i] = reg_tfr_size[arga[i]->data.as_reg];
+			if (nibble[i] < 0) {
+				error(error_type_syntax, "invalid register in inter-register op");
+				return;
+			}
 		} else if (type[i] == node_type_int) {
 			int v = arga[i]->data.as_int;
 			if (v == 0 && asm6809_options.isa == asm6809_isa_6309) {
@@ -602,7 +607,7 @@ void instr_tfm(struct opcode const *op, struct node const *args) {
 		return;
 	}
 
-	int nibble[2];
+	int nibble[2] = { 0, 0 };
 	int type[2];
 	int attr[2];
 	for (int i = 0; i < 2; i++) {
-- 
2.43.0


From 92abfc12534476ea5a608c4652c977c18023914f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:42 +0000
Subject: [PATCH 06/57] fix: increment or decrement silently ignored on
 register operands

---
 src/instr.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/instr.c b/src/instr.c
index b7feeb5..aab32df 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -520,7 +520,7 @@ void instr_stack(struct opcode const *op, struct node const *args, enum reg_id s
 
 	int pbyte = 0;
 	for (int i = 0; i < nargs; i++) {
-		if (node_type_of(arga[i]) != node_type_reg) {
+		if (node_type_of(arga[i]) != node_type_reg || node_attr_of(arga[i]) != node_attr_none) {
 			error(error_type_syntax, "invalid argument");
 			return;
 		}
@@ -562,7 +562,7 @@ void instr_pair(struct opcode const *op, struct node const *args) {
 		if (type[i] == node_type_reg) {
 			nibble[i] = reg_tfr_nibble[arga[i]->data.as_reg];
 			size[i] = reg_tfr_size[arga[i]->data.as_reg];
-			if (nibble[i] < 0) {
+			if (nibble[i] < 0 || node_attr_of(arga[i]) != node_attr_none) {
 				error(error_type_syntax, "invalid register in inter-register op");
 				return;
 			}
@@ -675,6 +675,8 @@ void instr_reg_mem(struct opcode const *op, struct node const *args) {
 		error(error_type_illegal, "numerical value used in place of register");
 		break;
 	case node_type_reg:
+		if (node_attr_of(arga[0]) != node_attr_none)
+			goto invalid_register;
 		switch (arga[0]->data.as_reg) {
 		case REG_CC:
 			pbyte = 0;
-- 
2.43.0


From ab3e60ce42bc69295e952f17c54b886795bc669b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:43 +0000
Subject: [PATCH 07/57] fix: arithmetic on two strings, or ternary on a string,
 had no value

---
 src/eval.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/eval.c b/src/eval.c
index 2b9f9b2..3d85ff7 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -253,8 +253,9 @@ struct node *eval_int_free(struct node *n) {
 	}
 	if (n->type == node_type_int)
 		return n;
+	struct node *ret = eval_int(n);
 	node_free(n);
-	return NULL;
+	return ret;
 }
 
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -353,6 +354,20 @@ static struct node *eval_node_oper_2(struct node *n) {
 
 	_Bool string_op = (leftn->type == node_type_string && rightn->type == node_type_string);
 
+	if (string_op) {
+		/* Relational operators compare strings, anything else operates
+		 * on their integer values */
+		switch (n->data.as_oper.oper) {
+		case '<': case LE: case '>': case GE: case EQ: case NE:
+			break;
+		default:
+			string_op = 0;
+			leftn = eval_int_free(leftn);
+			rightn = eval_int_free(rightn);
+			break;
+		}
+	}
+
 	if (string_op) {
 		/* Certain operations can be performed on strings */
 		switch (n->data.as_oper.oper) {
-- 
2.43.0


From 54c5c16525701fbda2aea90e7f9e62ebf3cf3c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:24 +0000
Subject: [PATCH 08/57] fix: operators applied to unsuitable operands silently
 had no value

---
 src/eval.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/eval.c b/src/eval.c
index 3d85ff7..4000be1 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -260,6 +260,14 @@ struct node *eval_int_free(struct node *n) {
 
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
+/* Report an operand that is defined, but to which the operator cannot be
+ * applied (e.g. a register).  Always returns NULL. */
+
+static struct node *bad_operand(void) {
+	error(error_type_syntax, "invalid operand in expression");
+	return NULL;
+}
+
 static struct node *eval_node_oper_1(struct node *n) {
 	struct node *ret = NULL;
 	struct node *arg;
@@ -286,6 +294,7 @@ static struct node *eval_node_oper_1(struct node *n) {
 			ret = node_new_float(-arg->data.as_float);
 			break;
 		default:
+			ret = bad_operand();
 			break;
 		}
 		break;
@@ -296,6 +305,7 @@ static struct node *eval_node_oper_1(struct node *n) {
 		case node_type_float:
 			return arg;
 		default:
+			ret = bad_operand();
 			break;
 		}
 		break;
@@ -313,6 +323,8 @@ static struct node *eval_node_oper_1(struct node *n) {
 		arg = eval_int_free(arg);
 		if (arg) {
 			ret = node_new_int(~arg->data.as_int);
+		} else {
+			ret = bad_operand();
 		}
 		break;
 
@@ -447,11 +459,11 @@ static struct node *eval_node_oper_2(struct node *n) {
 
 		if (!(leftn = eval_float_free(leftn))) {
 			node_free(rightn);
-			return NULL;
+			return bad_operand();
 		}
 		if (!(rightn = eval_float_free(rightn))) {
 			node_free(leftn);
-			return NULL;
+			return bad_operand();
 		}
 
 		switch (n->data.as_oper.oper) {
@@ -500,11 +512,11 @@ static struct node *eval_node_oper_2(struct node *n) {
 
 		if (!(leftn = eval_int_free(leftn))) {
 			node_free(rightn);
-			return NULL;
+			return bad_operand();
 		}
 		if (!(rightn = eval_int_free(rightn))) {
 			node_free(leftn);
-			return NULL;
+			return bad_operand();
 		}
 
 		switch (n->data.as_oper.oper) {
@@ -563,7 +575,7 @@ static struct node *eval_node_oper_3(struct node *n) {
 		return NULL;
 
 	if (!(condn = eval_int_free(condn)))
-		return NULL;
+		return bad_operand();
 
 	if (condn->data.as_int != 0) {
 		ret = eval_node(n->data.as_oper.args[1]);
-- 
2.43.0


From 524e33bdafb4d1b74bb7b593e5164339a2c746ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:24 +0000
Subject: [PATCH 09/57] fix: modulo by zero raised SIGFPE

---
 src/eval.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/eval.c b/src/eval.c
index 4000be1..902dbc5 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -521,7 +521,15 @@ static struct node *eval_node_oper_2(struct node *n) {
 
 		switch (n->data.as_oper.oper) {
 		case '%':
-			ret = node_new_int(leftn->data.as_int % rightn->data.as_int);
+			if (rightn->data.as_int == 0) {
+				error(error_type_out_of_range, "modulo by zero");
+				ret = NULL;
+			} else if (rightn->data.as_int == -1) {
+				// avoids overflow
+				ret = node_new_int(0);
+			} else {
+				ret = node_new_int(leftn->data.as_int % rightn->data.as_int);
+			}
 			break;
 		case SHL:
 			ret = node_new_int(leftn->data.as_int << rightn->data.as_int);
-- 
2.43.0


From c73697149ac19cc179d09dc1a0f6c5c91d8db126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:37 +0000
Subject: [PATCH 10/57] fix: % and / following a complete operand mistaken for
 start of literal or string

---
 src/lex.l | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lex.l b/src/lex.l
index 3bddbf3..6d43dbd 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -112,11 +112,14 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 			return DELIM;
 		}
 
+\%{bindigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+1, NULL, 2); return INTEGER; }
+\*		{ BEGIN(argnostr); return *yytext; }
+
 }
 
 <argnostr,argnostrnum>{
 
-\/		{ BEGIN(argnostr); return *yytext; }
+\/		{ BEGIN(arg); return *yytext; }
 
 }
 
@@ -144,7 +147,6 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 {decimal}[bB]	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext, NULL, 10); return BACKREF; }
 {decimal}[fF]	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext, NULL, 10); return FWDREF; }
 
-\%{bindigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+1, NULL, 2); return INTEGER; }
 0b{bindigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+2, NULL, 2); return INTEGER; }
 @{octdigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+1, NULL, 8); return INTEGER; }
 0{octdigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext, NULL, 8); return INTEGER; }
-- 
2.43.0


From 1e17f34c8142aabd8fc1265495f99653f9ce7986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:31 +0000
Subject: [PATCH 11/57] fix: adjacent unary and binary signs without a space
 between ended the expression

---
 src/grammar.y | 6 +++++-
 src/lex.l     | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/grammar.y b/src/grammar.y
index b679585..792780b 100644
--- a/src/grammar.y
+++ b/src/grammar.y
@@ -82,7 +82,7 @@ static void check_end_opcode(struct prog_line *line);
 %left '<' LE '>' GE
 %left EQ NE
 %left SHL SHR
-%left '+' '-'
+%left '+' '-' INC2 DEC2
 %left '*' '/' '%'
 %nonassoc UMINUS '!' '~'
 %left '(' ')'
@@ -144,6 +144,8 @@ reg	: REGISTER		{ $$ = node_new_reg($1); }
 expr	: '(' expr ')'		{ $$ = $2; }
 	| '-' expr %prec UMINUS	{ $$ = node_new_oper_1('-', $2); }
 	| '+' expr %prec UMINUS	{ $$ = node_new_oper_1('+', $2); }
+	| DEC2 expr %prec UMINUS	{ $$ = node_new_oper_1('-', node_new_oper_1('-', $2)); }
+	| INC2 expr %prec UMINUS	{ $$ = node_new_oper_1('+', node_new_oper_1('+', $2)); }
 	| '~' expr		{ $$ = node_new_oper_1('~', $2); }
 	| '!' expr		{ $$ = node_new_oper_1('!', $2); }
 	| expr '*' expr		{ $$ = node_new_oper_2('*', $1, $3); }
@@ -151,6 +153,8 @@ expr	: '(' expr ')'		{ $$ = $2; }
 	| expr '%' expr		{ $$ = node_new_oper_2('%', $1, $3); }
 	| expr '+' expr		{ $$ = node_new_oper_2('+', $1, $3); }
 	| expr '-' expr		{ $$ = node_new_oper_2('-', $1, $3); }
+	| expr DEC2 expr	{ $$ = node_new_oper_2('-', $1, node_new_oper_1('-', $3)); }
+	| expr INC2 expr	{ $$ = node_new_oper_2('+', $1, node_new_oper_1('+', $3)); }
 	| expr SHL expr		{ $$ = node_new_oper_2(SHL, $1, $3); }
 	| expr SHR expr		{ $$ = node_new_oper_2(SHR, $1, $3); }
 	| expr '<' expr		{ $$ = node_new_oper_2('<', $1, $3); }
diff --git a/src/lex.l b/src/lex.l
index 6d43dbd..b1d81b7 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -141,8 +141,8 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 \\{digit}	{ BEGIN(argnostrnum); yylval.as_string = strndup(yytext+1, yyleng-1); return INTERP; }
 \\\{{decimal}\}	{ BEGIN(argnostrnum); yylval.as_string = strndup(yytext+2, yyleng-3); return INTERP; }
 
-\+\+		{ BEGIN(argnostr); return INC2; }
-\-\-		{ BEGIN(argnostr); return DEC2; }
+\+\+		{ BEGIN(arg); return INC2; }
+\-\-		{ BEGIN(arg); return DEC2; }
 
 {decimal}[bB]	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext, NULL, 10); return BACKREF; }
 {decimal}[fF]	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext, NULL, 10); return FWDREF; }
-- 
2.43.0


From bc9d43a741c9cd9a0945df6f4fbe62b690bf89b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:31 +0000
Subject: [PATCH 12/57] fix: relational operators bound less tightly than
 equality, contrary to documentation

---
 src/grammar.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar.y b/src/grammar.y
index 792780b..83d619c 100644
--- a/src/grammar.y
+++ b/src/grammar.y
@@ -79,8 +79,8 @@ static void check_end_opcode(struct prog_line *line);
 %left '|'
 %left '^'
 %left '&'
-%left '<' LE '>' GE
 %left EQ NE
+%left '<' LE '>' GE
 %left SHL SHR
 %left '+' '-' INC2 DEC2
 %left '*' '/' '%'
-- 
2.43.0


From ceac97c3ada668dbcb8c3ac0ea022540947e7d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:32 +0000
Subject: [PATCH 13/57] fix: crash creating symbols file when there are no
 symbols

---
 src/symbol.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/symbol.c b/src/symbol.c
index b3ef68e..bddc29c 100644
--- a/src/symbol.c
+++ b/src/symbol.c
@@ -115,6 +115,8 @@ static void add_to_list(const char *key, struct node *value, struct slist **l) {
 
 struct slist *symbol_get_list(void) {
 	struct slist *l = NULL;
+	if (!symbols)
+		return NULL;
 	dict_foreach(symbols, (dict_iter_func)add_to_list, &l);
 	return l;
 }
-- 
2.43.0


From 29632bfa8169bad545795ce68c5269bdbd0b9262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:32 +0000
Subject: [PATCH 14/57] fix: internal .exec symbol made symbols file unusable
 for inclusion

---
 src/program.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/program.c b/src/program.c
index 6e064d0..e8b84a8 100644
--- a/src/program.c
+++ b/src/program.c
@@ -285,6 +285,11 @@ void prog_print_exports(FILE *f) {
 
 void prog_print_symbols(FILE *f) {
 	struct slist *symbols = symbol_get_list();
-	slist_foreach(symbols, (slist_iter_func)print_symbol, f);
+	for (struct slist *l = symbols; l; l = l->next) {
+		const char *key = l->data;
+		// internal symbols (e.g. ".exec") can't be named in source
+		if (key[0] != '.')
+			print_symbol(key, f);
+	}
 	slist_free(symbols);
 }
-- 
2.43.0


From ed588054d303d3312bdbbbc963f8ad7668cbc004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 15/57] fix: out of range value reported after an inconsistency
 prevented further passes

---
 src/error.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/error.c b/src/error.c
index 3d7e764..527703e 100644
--- a/src/error.c
+++ b/src/error.c
@@ -44,7 +44,11 @@ static struct slist **error_list_next = &error_list;
 
 static void verror(enum error_type type, const char *fmt, va_list ap) {
 	struct error *err = NULL;
-	if (type > error_level) {
+	/* Out of range values are not considered fatal if inconsistencies were
+	 * found, whichever was reported first. */
+	if (type > error_level &&
+	    !(type == error_type_out_of_range &&
+	      error_level == error_type_inconsistent)) {
 		error_level = type;
 	}
 	if (type == error_type_inconsistent &&
-- 
2.43.0


From 71eb3e137d158a2f8009413af3e0cb1d64d6b0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:21 +0000
Subject: [PATCH 16/57] fix: non-integer END or --exec value gave wrong EXEC
 address

---
 src/asm6809.c  | 3 ++-
 src/assemble.c | 8 +++++++-
 src/output.c   | 2 +-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index 55e2143..9932165 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -26,6 +26,7 @@ option) any later version.
 #include "asm6809.h"
 #include "assemble.h"
 #include "error.h"
+#include "eval.h"
 #include "listing.h"
 #include "node.h"
 #include "opcode.h"
@@ -230,7 +231,7 @@ int main(int argc, char **argv) {
 		struct node *n = simple_parse_int(exec_option);
 		if (!n) {
 			unsigned v = 0;
-			struct node *tmp = symbol_get(exec_option);
+			struct node *tmp = eval_int_free(symbol_get(exec_option));
 			if (tmp) {
 				v = tmp->data.as_int & 0xffff;
 				node_free(tmp);
diff --git a/src/assemble.c b/src/assemble.c
index f476ba1..d46cd6a 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -1028,7 +1028,13 @@ static void pseudo_end(struct prog_line *line) {
 	if (nargs < 1)
 		return;
 	struct node **arga = node_array_of(line->args);
-	symbol_set(".exec", arga[0], asm_pass, 0);
+	struct node *n = eval_int(arga[0]);
+	if (!n && node_type_of(arga[0]) != node_type_undef) {
+		error(error_type_syntax, "invalid argument to END");
+		return;
+	}
+	symbol_set(".exec", n, 0, asm_pass);
+	node_free(n);
 }
 
 /* Ignore certain historical pseudo-ops */
diff --git a/src/output.c b/src/output.c
index a68f2ec..fe31c2b 100644
--- a/src/output.c
+++ b/src/output.c
@@ -35,7 +35,7 @@ static void write_single_binary(FILE *f, struct section_span *span) {
 /* Helper to figure out exec address. */
 
 static int get_exec_addr(void) {
-	struct node *n = symbol_try_get(".exec");
+	struct node *n = eval_int_free(symbol_try_get(".exec"));
 	int ret = -1;
 	if (n) {
 		if (n->data.as_int >= 0)
-- 
2.43.0


From 93abb76da65797eae3ff0aed0b61f95de8900156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:54 +0000
Subject: [PATCH 17/57] fix: value of --setdp option was ignored

---
 src/asm6809.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index 9932165..ffe164f 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -44,6 +44,9 @@ struct asm6809_options asm6809_options;
 #define OUTPUT_MOTOROLA_SREC (3)
 #define OUTPUT_INTEL_HEX (4)
 
+/* Long options without a short equivalent */
+#define OPT_SETDP (256)
+
 static int max_passes = 12;
 static int output_format = OUTPUT_BINARY;
 static char *exec_option = NULL;
@@ -66,7 +69,7 @@ static struct option long_options[] = {
 	{ "6809", no_argument, &isa, asm6809_isa_6809 },
 	{ "6309", no_argument, &isa, asm6809_isa_6309 },
 	{ "define", required_argument, NULL, 'd' },
-	{ "setdp", required_argument, &setdp, 0 },
+	{ "setdp", required_argument, NULL, OPT_SETDP },
 	{ "max-passes", required_argument, NULL, 'P' },
 	{ "output", required_argument, NULL, 'o' },
 	{ "listing", required_argument, NULL, 'l' },
@@ -124,6 +127,23 @@ int main(int argc, char **argv) {
 		case 'd':
 			define_symbol(optarg);
 			break;
+		case OPT_SETDP:
+			{
+				_Bool negative = (optarg[0] == '-');
+				struct node *n = simple_parse_int(optarg + negative);
+				if (!n) {
+					error(error_type_fatal, "invalid value for setdp");
+					error_print_list();
+					tidy_up_and_exit(EXIT_FAILURE);
+				}
+				// as with SETDP, negative implies no valid DP
+				if (negative && n->data.as_int != 0)
+					setdp = -1;
+				else
+					setdp = n->data.as_int & 0xff;
+				node_free(n);
+			}
+			break;
 		case 'P':
 			{
 				long v = strtol(optarg, NULL, 0);
-- 
2.43.0


From 109935c9a5210288860d18b89685cd9a2a8eaefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:37 +0000
Subject: [PATCH 18/57] fix: negative or invalid value in --define left symbol
 undefined

---
 src/asm6809.c | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index ffe164f..dd02da1 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -328,21 +328,27 @@ int main(int argc, char **argv) {
 /* Special parsing of arguments.  Integers only for now. */
 static struct node *simple_parse_int(const char *str) {
 	struct node *n = NULL;
+	char *end = NULL;
 	if (str[0] == '$') {
-		n = node_new_int(strtol(str+1, NULL, 16));
+		n = node_new_int(strtol(++str, &end, 16));
 	} else if (str[0] == '@') {
-		n = node_new_int(strtol(str+1, NULL, 8));
+		n = node_new_int(strtol(++str, &end, 8));
 	} else if (str[0] == '%') {
-		n = node_new_int(strtol(str+1, NULL, 2));
+		n = node_new_int(strtol(++str, &end, 2));
 	} else if (str[0] == '0') {
 		if (str[1] == 'x')
-			n = node_new_int(strtol(str+2, NULL, 16));
+			n = node_new_int(strtol(str += 2, &end, 16));
 		else if (str[1] == 'b')
-			n = node_new_int(strtol(str+2, NULL, 2));
+			n = node_new_int(strtol(str += 2, &end, 2));
 		else
-			n = node_new_int(strtol(str, NULL, 10));
+			n = node_new_int(strtol(str, &end, 10));
 	} else if (str[0] >= '0' && str[0] <= '9') {
-		n = node_new_int(strtol(str, NULL, 10));
+		n = node_new_int(strtol(str, &end, 10));
+	}
+	// all of the string must have been used
+	if (n && (end == str || *end)) {
+		node_free(n);
+		n = NULL;
 	}
 	return n;
 }
@@ -353,7 +359,16 @@ static void define_symbol(const char *str) {
 	struct node *value;
 	if (tmp) {
 		*(tmp++) = 0;
-		value = simple_parse_int(tmp);
+		_Bool negative = (*tmp == '-');
+		value = simple_parse_int(tmp + negative);
+		if (!value) {
+			error(error_type_fatal, "invalid value for symbol '%s'", key);
+			error_print_list();
+			free(key);
+			tidy_up_and_exit(EXIT_FAILURE);
+		}
+		if (negative)
+			value->data.as_int = -value->data.as_int;
 	} else {
 		value = node_new_int(1);
 	}
-- 
2.43.0


From 1ebdc4f633204bef1be2a6c2c8d4138f78929886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:33 +0000
Subject: [PATCH 19/57] fix: output was written even though --exec symbol was
 undefined

---
 src/asm6809.c | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index dd02da1..38658ca 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -234,17 +234,6 @@ int main(int argc, char **argv) {
 	/* Otherwise print any warnings */
 	error_print_list();
 
-	/* Generate listing file */
-	if (listing_filename) {
-		FILE *listf = fopen(listing_filename, "wb");
-		if (listf) {
-			listing_print(listf);
-			fclose(listf);
-		} else {
-			error(error_type_fatal, "%s: %s", listing_filename, strerror(errno));
-		}
-	}
-
 	/* Special parsing of option exec address option.  Overrides any use of
 	 * the END pseudo-op. */
 	if (exec_option) {
@@ -263,6 +252,23 @@ int main(int argc, char **argv) {
 		symbol_force_set(".exec", n, 0, max_passes);
 	}
 
+	/* Nothing is written if that failed */
+	if (error_level >= error_type_inconsistent) {
+		error_print_list();
+		tidy_up_and_exit(EXIT_FAILURE);
+	}
+
+	/* Generate listing file */
+	if (listing_filename) {
+		FILE *listf = fopen(listing_filename, "wb");
+		if (listf) {
+			listing_print(listf);
+			fclose(listf);
+		} else {
+			error(error_type_fatal, "%s: %s", listing_filename, strerror(errno));
+		}
+	}
+
 	// XXX At the moment listing generation must precede output, as
 	// coelescing spans might screw with the span data to which the listing
 	// refers.  Not a big deal, but needs fixing.
-- 
2.43.0


From 530c2c1713c331312c5c8a7aa8bd9c34b54e635c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:24 +0000
Subject: [PATCH 20/57] fix: failure to open or write output files was not
 reported

---
 src/asm6809.c | 18 ++++--------
 src/output.c  | 78 ++++++++++++++++++++++++++++++++++-----------------
 src/output.h  |  6 ++++
 3 files changed, 65 insertions(+), 37 deletions(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index 38658ca..9591912 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -260,12 +260,10 @@ int main(int argc, char **argv) {
 
 	/* Generate listing file */
 	if (listing_filename) {
-		FILE *listf = fopen(listing_filename, "wb");
+		FILE *listf = output_open(listing_filename);
 		if (listf) {
 			listing_print(listf);
-			fclose(listf);
-		} else {
-			error(error_type_fatal, "%s: %s", listing_filename, strerror(errno));
+			output_close(listf, listing_filename);
 		}
 	}
 
@@ -299,23 +297,19 @@ int main(int argc, char **argv) {
 
 	/* Generate exports file */
 	if (exports_filename) {
-		FILE *expf = fopen(exports_filename, "wb");
+		FILE *expf = output_open(exports_filename);
 		if (expf) {
 			prog_print_exports(expf);
-			fclose(expf);
-		} else {
-			error(error_type_fatal, "%s: %s", exports_filename, strerror(errno));
+			output_close(expf, exports_filename);
 		}
 	}
 
 	/* Generate symbols file */
 	if (symbol_filename) {
-		FILE *symf = fopen(symbol_filename, "wb");
+		FILE *symf = output_open(symbol_filename);
 		if (symf) {
 			prog_print_symbols(symf);
-			fclose(symf);
-		} else {
-			error(error_type_fatal, "%s: %s", symbol_filename, strerror(errno));
+			output_close(symf, symbol_filename);
 		}
 	}
 
diff --git a/src/output.c b/src/output.c
index fe31c2b..43fcc0a 100644
--- a/src/output.c
+++ b/src/output.c
@@ -13,9 +13,11 @@ option) any later version.
 #include "config.h"
 
 #include <assert.h>
+#include <errno.h>
 #include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include "error.h"
 #include "eval.h"
@@ -25,6 +27,27 @@ option) any later version.
 #include "slist.h"
 #include "symbol.h"
 
+/* Open a file for writing.  Failure is a fatal error. */
+
+FILE *output_open(const char *filename) {
+	FILE *f = fopen(filename, "wb");
+	if (!f)
+		error(error_type_fatal, "%s: %s", filename, strerror(errno));
+	return f;
+}
+
+/* Close a file opened with output_open().  As written data is buffered, write
+ * errors may only be found now.  Any failure is a fatal error. */
+
+void output_close(FILE *f, const char *filename) {
+	errno = 0;
+	_Bool failed = ferror(f);
+	if (fclose(f) != 0)
+		failed = 1;
+	if (failed)
+		error(error_type_fatal, "%s: %s", filename, errno ? strerror(errno) : "write error");
+}
+
 /* Helper that dumps a single binary blob to file. */
 
 static void write_single_binary(FILE *f, struct section_span *span) {
@@ -48,18 +71,19 @@ static int get_exec_addr(void) {
 /* Output format: Plain binary.  All coalesced into one big blob. */
 
 void output_binary(const char *filename) {
-	FILE *f = fopen(filename, "wb");
-	if (!f)
-		return;
-
 	struct section *sect = section_coalesce_all(1);
+	FILE *f = output_open(filename);
+	if (!f) {
+		section_free(sect);
+		return;
+	}
 	if (sect->spans) {
 		struct section_span *span = sect->spans->data;
 		write_single_binary(f, span);
 	}
 
 	section_free(sect);
-	fclose(f);
+	output_close(f, filename);
 }
 
 /* Output format: DragonDOS binary. */
@@ -67,11 +91,12 @@ void output_binary(const char *filename) {
 void output_dragondos(const char *filename) {
 	int exec_addr = get_exec_addr();
 
-	FILE *f = fopen(filename, "wb");
-	if (!f)
-		return;
-
 	struct section *sect = section_coalesce_all(1);
+	FILE *f = output_open(filename);
+	if (!f) {
+		section_free(sect);
+		return;
+	}
 	struct section_span *span = NULL;
 	unsigned put = 0;
 	unsigned size = 0;
@@ -96,7 +121,7 @@ void output_dragondos(const char *filename) {
 		write_single_binary(f, span);
 
 	section_free(sect);
-	fclose(f);
+	output_close(f, filename);
 }
 
 /* Output format: CoCo RSDOS binary. */
@@ -110,11 +135,12 @@ void output_dragondos(const char *filename) {
 void output_coco(const char *filename) {
 	int exec_addr = get_exec_addr();
 
-	FILE *f = fopen(filename, "wb");
-	if (!f)
-		return;
-
 	struct section *sect = section_coalesce_all(0);
+	FILE *f = output_open(filename);
+	if (!f) {
+		section_free(sect);
+		return;
+	}
 
 	for (struct slist *l = sect->spans; l; l = l->next) {
 		struct section_span *span = l->data;
@@ -137,7 +163,7 @@ void output_coco(const char *filename) {
 	fputc(exec_addr  & 0xff, f);
 
 	section_free(sect);
-	fclose(f);
+	output_close(f, filename);
 }
 
 /* Output format: Motorola SREC. */
@@ -145,11 +171,12 @@ void output_coco(const char *filename) {
 void output_motorola_srec(const char *filename) {
 	int exec_addr = get_exec_addr();
 
-	FILE *f = fopen(filename, "wb");
-	if (!f)
-		return;
-
 	struct section *sect = section_coalesce_all(0);
+	FILE *f = output_open(filename);
+	if (!f) {
+		section_free(sect);
+		return;
+	}
 
 	for (struct slist *l = sect->spans; l; l = l->next) {
 		struct section_span *span = l->data;
@@ -180,7 +207,7 @@ void output_motorola_srec(const char *filename) {
         }
 
 	section_free(sect);
-	fclose(f);
+	output_close(f, filename);
 }
 
 /* Output format: Intel HEX. */
@@ -188,11 +215,12 @@ void output_motorola_srec(const char *filename) {
 void output_intel_hex(const char *filename) {
 	int exec_addr = get_exec_addr();
 
-	FILE *f = fopen(filename, "wb");
-	if (!f)
-		return;
-
 	struct section *sect = section_coalesce_all(0);
+	FILE *f = output_open(filename);
+	if (!f) {
+		section_free(sect);
+		return;
+	}
 
 	for (struct slist *l = sect->spans; l; l = l->next) {
 		struct section_span *span = l->data;
@@ -223,5 +251,5 @@ void output_intel_hex(const char *filename) {
 	}
 
 	section_free(sect);
-	fclose(f);
+	output_close(f, filename);
 }
diff --git a/src/output.h b/src/output.h
index ed9ffba..34aa5cd 100644
--- a/src/output.h
+++ b/src/output.h
@@ -13,10 +13,16 @@ option) any later version.
 #ifndef ASM6809_OUTPUT_H_
 #define ASM6809_OUTPUT_H_
 
+#include <stdio.h>
+
 /*
  * Write assembled data to a variety of output formats.
  */
 
+/* Open and close files for writing.  Any failure is reported as an error. */
+FILE *output_open(const char *filename);
+void output_close(FILE *f, const char *filename);
+
 /* Output format: Binary. */
 void output_binary(const char *filename);
 
-- 
2.43.0


From 78ea9b5bada5927f4e87db91f3cbdd7b72e6b641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:24 +0000
Subject: [PATCH 21/57] fix: output was written even though data overlapped

---
 src/output.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/output.c b/src/output.c
index 43fcc0a..7846f62 100644
--- a/src/output.c
+++ b/src/output.c
@@ -72,7 +72,7 @@ static int get_exec_addr(void) {
 
 void output_binary(const char *filename) {
 	struct section *sect = section_coalesce_all(1);
-	FILE *f = output_open(filename);
+	FILE *f = (error_level < error_type_data) ? output_open(filename) : NULL;
 	if (!f) {
 		section_free(sect);
 		return;
@@ -92,7 +92,7 @@ void output_dragondos(const char *filename) {
 	int exec_addr = get_exec_addr();
 
 	struct section *sect = section_coalesce_all(1);
-	FILE *f = output_open(filename);
+	FILE *f = (error_level < error_type_data) ? output_open(filename) : NULL;
 	if (!f) {
 		section_free(sect);
 		return;
@@ -136,7 +136,7 @@ void output_coco(const char *filename) {
 	int exec_addr = get_exec_addr();
 
 	struct section *sect = section_coalesce_all(0);
-	FILE *f = output_open(filename);
+	FILE *f = (error_level < error_type_data) ? output_open(filename) : NULL;
 	if (!f) {
 		section_free(sect);
 		return;
@@ -172,7 +172,7 @@ void output_motorola_srec(const char *filename) {
 	int exec_addr = get_exec_addr();
 
 	struct section *sect = section_coalesce_all(0);
-	FILE *f = output_open(filename);
+	FILE *f = (error_level < error_type_data) ? output_open(filename) : NULL;
 	if (!f) {
 		section_free(sect);
 		return;
@@ -216,7 +216,7 @@ void output_intel_hex(const char *filename) {
 	int exec_addr = get_exec_addr();
 
 	struct section *sect = section_coalesce_all(0);
-	FILE *f = output_open(filename);
+	FILE *f = (error_level < error_type_data) ? output_open(filename) : NULL;
 	if (!f) {
 		section_free(sect);
 		return;
-- 
2.43.0


From bbbf32f522f40599c6189a041e013757dcf5114f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:42 +0000
Subject: [PATCH 22/57] fix: data beyond 16-bit addresses yielded malformed
 output files

---
 src/output.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/output.c b/src/output.c
index 7846f62..7779da8 100644
--- a/src/output.c
+++ b/src/output.c
@@ -55,6 +55,20 @@ static void write_single_binary(FILE *f, struct section_span *span) {
 	fwrite(span->data, 1, size, f);
 }
 
+/* Helper to verify that spans can be represented with 16-bit addresses, and
+ * that none is larger than max_size. */
+
+static void verify_spans(struct section *sect, unsigned max_size) {
+	for (struct slist *l = sect->spans; l; l = l->next) {
+		struct section_span *span = l->data;
+		if (span->put > 0x10000 || span->size > 0x10000 - span->put) {
+			error(error_type_data, "data at $%04X extends beyond addressable memory", span->put);
+		} else if (span->size > max_size) {
+			error(error_type_data, "too much data for output format");
+		}
+	}
+}
+
 /* Helper to figure out exec address. */
 
 static int get_exec_addr(void) {
@@ -92,6 +106,7 @@ void output_dragondos(const char *filename) {
 	int exec_addr = get_exec_addr();
 
 	struct section *sect = section_coalesce_all(1);
+	verify_spans(sect, 0xffff);
 	FILE *f = (error_level < error_type_data) ? output_open(filename) : NULL;
 	if (!f) {
 		section_free(sect);
@@ -136,6 +151,7 @@ void output_coco(const char *filename) {
 	int exec_addr = get_exec_addr();
 
 	struct section *sect = section_coalesce_all(0);
+	verify_spans(sect, 0xffff);
 	FILE *f = (error_level < error_type_data) ? output_open(filename) : NULL;
 	if (!f) {
 		section_free(sect);
@@ -172,6 +188,7 @@ void output_motorola_srec(const char *filename) {
 	int exec_addr = get_exec_addr();
 
 	struct section *sect = section_coalesce_all(0);
+	verify_spans(sect, 0x10000);
 	FILE *f = (error_level < error_type_data) ? output_open(filename) : NULL;
 	if (!f) {
 		section_free(sect);
@@ -216,6 +233,7 @@ void output_intel_hex(const char *filename) {
 	int exec_addr = get_exec_addr();
 
 	struct section *sect = section_coalesce_all(0);
+	verify_spans(sect, 0x10000);
 	FILE *f = (error_level < error_type_data) ? output_open(filename) : NULL;
 	if (!f) {
 		section_free(sect);
-- 
2.43.0


From a92a2d510e38ccebb0fe10b179a678f63450bc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:12 +0000
Subject: [PATCH 23/57] fix: data bytes missing from listing if PUT address
 differs, or garbage shown for RMB

---
 src/assemble.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/assemble.c b/src/assemble.c
index d46cd6a..0ceb9ac 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -488,9 +488,12 @@ void assemble_prog(struct prog *prog, unsigned pass) {
 		op_handler = dict_lookup(pseudo_data_dict, n_line.opcode->data.as_string);
 		if (op_handler) {
 			int old_pc = cur_section->pc;
+			struct section_span *old_span = cur_section->span;
+			unsigned old_size = old_span ? old_span->size : 0;
 			op_handler(&n_line);
 			int nbytes = cur_section->pc - old_pc;
-			if (cur_section->span && cur_section->pc == (int)(cur_section->span->put + cur_section->span->size))
+			/* Only list data if some was emitted, not just reserved */
+			if (cur_section->span != old_span || (old_span && old_span->size != old_size))
 				listing_add_line(old_pc & 0xffff, nbytes, cur_section->span, l->text);
 			else
 				listing_add_line(old_pc & 0xffff, nbytes, NULL, l->text);
-- 
2.43.0


From 1c0785583379a41c5b04a93e6513444dd5e5d424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 24/57] fix: section following one with a forward referenced
 PUT was misplaced

---
 src/section.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/section.c b/src/section.c
index 38271b9..0bbcd51 100644
--- a/src/section.c
+++ b/src/section.c
@@ -143,7 +143,7 @@ static void verify_section(void *key, void *value, void *data) {
 	struct section *sect = value;
 	if (!sect)
 		return;
-	if (sect->last_pc != sect->pc) {
+	if (sect->last_pc != sect->pc || sect->last_put != sect->put) {
 		sect->last_pc = sect->pc;
 		sect->last_put = sect->put;
 		error(error_type_inconsistent, NULL);
-- 
2.43.0


From 0bc2680acfdfa1a52774aa8072f39b301ffc202e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 25/57] fix: data in section only selected in an earlier pass
 was still output

---
 src/section.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/section.c b/src/section.c
index 0bbcd51..715ed02 100644
--- a/src/section.c
+++ b/src/section.c
@@ -143,6 +143,13 @@ static void verify_section(void *key, void *value, void *data) {
 	struct section *sect = value;
 	if (!sect)
 		return;
+	/* Discard old data if section not selected during this pass */
+	if (sect->pass != cur_section->pass) {
+		slist_free_full(sect->spans, (slist_free_func)section_span_free);
+		sect->spans = NULL;
+		sect->span = NULL;
+		return;
+	}
 	if (sect->last_pc != sect->pc || sect->last_put != sect->put) {
 		sect->last_pc = sect->pc;
 		sect->last_put = sect->put;
-- 
2.43.0


From 00fb6cb936e26f88c158e27a0e650c497bb0ac6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:53 +0000
Subject: [PATCH 26/57] fix: symbol first defined after the first pass did not
 trigger another

---
 src/symbol.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/symbol.c b/src/symbol.c
index bddc29c..f89a813 100644
--- a/src/symbol.c
+++ b/src/symbol.c
@@ -81,7 +81,9 @@ _Bool symbol_force_set(const char *key, struct node *value, _Bool changeable, un
 	struct symbol *news = xmalloc(sizeof(*news));
 	news->pass = pass;
 	news->node = eval_node(value);
-	_Bool is_inconsistent = (olds && !node_equal(olds->node, news->node));
+	/* A symbol may already have been found undefined by IF, so first
+	 * defining it after the first pass is an inconsistency too */
+	_Bool is_inconsistent = olds ? !node_equal(olds->node, news->node) : (pass > 0);
 	char *key_copy = xstrdup(key);
 	dict_insert(symbols, key_copy, news);
 	return is_inconsistent;
-- 
2.43.0


From 3468be0ad8ff7aea3997f971aca7b7b80b311990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 27/57] fix: EXPORT of an undefined symbol was silently ignored

---
 src/asm6809.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index 9591912..4aae48f 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -313,8 +313,9 @@ int main(int argc, char **argv) {
 		}
 	}
 
-	/* Any errors in all that? */
-	if (error_level >= error_type_syntax) {
+	/* Any errors in all that?  This includes an attempt to export an
+	 * undefined symbol. */
+	if (error_level >= error_type_inconsistent) {
 		error_print_list();
 		tidy_up_and_exit(EXIT_FAILURE);
 	}
-- 
2.43.0


From 8a0f7d66eed40a5fe957578fdd2b216b825fe0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:34 +0000
Subject: [PATCH 28/57] fix: some operators in exported macros could not be
 read back in

---
 src/node.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/node.c b/src/node.c
index 0d7af50..29c89fd 100644
--- a/src/node.c
+++ b/src/node.c
@@ -295,6 +295,12 @@ static const char *opstr(int op) {
 	switch (op) {
 	case SHL: return "<<";
 	case SHR: return ">>";
+	case LE: return "<=";
+	case GE: return ">=";
+	case EQ: return "==";
+	case NE: return "!=";
+	case LAND: return "&&";
+	case LOR: return "||";
 	default: str[0] = op; str[1] = 0; break;
 	}
 	return str;
@@ -362,7 +368,7 @@ void node_print(FILE *f, struct node const *n) {
 		fprintf(f, "%"PRId64"F", n->data.as_int);
 		break;
 	case node_type_interp:
-		fprintf(f, "&{%s}", n->data.as_string);
+		fprintf(f, "\\{%s}", n->data.as_string);
 		break;
 
 	/* Operator types */
@@ -385,8 +391,14 @@ void node_print(FILE *f, struct node const *n) {
 			node_print(f, n->data.as_oper.args[0]);
 		} else if (n->data.as_oper.nargs == 2) {
 			node_print(f, n->data.as_oper.args[0]);
-			fprintf(f, "%s", opstr(n->data.as_oper.oper));
+			fprintf(f, " %s ", opstr(n->data.as_oper.oper));
+			node_print(f, n->data.as_oper.args[1]);
+		} else if (n->data.as_oper.nargs == 3) {
+			node_print(f, n->data.as_oper.args[0]);
+			fprintf(f, " ? ");
 			node_print(f, n->data.as_oper.args[1]);
+			fprintf(f, " : ");
+			node_print(f, n->data.as_oper.args[2]);
 		}
 		fprintf(f, ")");
 		break;
-- 
2.43.0


From 30397295d02cd08a6e42b865c453d2bd9273c31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:35 +0000
Subject: [PATCH 29/57] fix: special characters in exported strings were not
 escaped

---
 src/node.c    | 33 ++++++++++++++++++++++++++++++++-
 src/node.h    |  3 +++
 src/program.c |  9 ++++-----
 3 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/node.c b/src/node.c
index 29c89fd..af08d1d 100644
--- a/src/node.c
+++ b/src/node.c
@@ -306,6 +306,33 @@ static const char *opstr(int op) {
 	return str;
 }
 
+/* Print the contents of a string delimited by '/'. */
+
+static void print_quoted(FILE *f, char const *s) {
+	for (; *s; s++) {
+		switch (*s) {
+		case '\n':
+			fprintf(f, "\\n");
+			break;
+		case '\r':
+			fprintf(f, "\\r");
+			break;
+		case '/': case '\\': case '&':
+			fputc('\\', f);
+			/* fall through */
+		default:
+			fputc(*s, f);
+			break;
+		}
+	}
+}
+
+void node_print_string(FILE *f, struct node const *n) {
+	fputc('/', f);
+	print_quoted(f, n->data.as_string);
+	fputc('/', f);
+}
+
 void node_print(FILE *f, struct node const *n) {
 	struct slist *l;
 	if (!n) {
@@ -380,7 +407,11 @@ void node_print(FILE *f, struct node const *n) {
 	case node_type_text:
 		fprintf(f, "/");
 		for (l = n->data.as_list; l; l = l->next) {
-			node_print(f, (struct node *)l->data);
+			struct node const *part = l->data;
+			if (node_type_of(part) == node_type_string)
+				print_quoted(f, part->data.as_string);
+			else
+				node_print(f, part);
 		}
 		fprintf(f, "/");
 		break;
diff --git a/src/node.h b/src/node.h
index 74998a9..03453dc 100644
--- a/src/node.h
+++ b/src/node.h
@@ -202,6 +202,9 @@ struct node *node_array_push(struct node *a, struct node *n);
  */
 
 void node_print(FILE *f, struct node const *n);
+
+/* As above, but a string node is printed delimited, ready to be read back in. */
+void node_print_string(FILE *f, struct node const *n);
 void node_print_array(FILE *f, struct node const *n);  // print array without []
 
 #endif
diff --git a/src/program.c b/src/program.c
index e8b84a8..0449d36 100644
--- a/src/program.c
+++ b/src/program.c
@@ -229,7 +229,6 @@ static void print_symbol(const char *key, FILE *f) {
 		node_free(sym);
 		if (!n)
 			return;
-		int delim = 0;
 		enum node_attr old_attr = node_attr_of(n);
 		n = node_set_attr(n, node_attr_none);
 		switch (node_type_of(n)) {
@@ -242,13 +241,13 @@ static void print_symbol(const char *key, FILE *f) {
 		case node_type_reg:
 			break;
 		case node_type_string:
-			delim = '/';
 			break;
 		}
 		fprintf(f, "%s\tequ\t", key);
-		if (delim) fputc(delim, f);
-		node_print(f, n);
-		if (delim) fputc(delim, f);
+		if (node_type_of(n) == node_type_string)
+			node_print_string(f, n);
+		else
+			node_print(f, n);
 		fprintf(f, "\n");
 		n = node_set_attr(n, old_attr);
 		node_free(n);
-- 
2.43.0


From ed008ef7a9ec6318b2434b035de6552edd7e36aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:06 +0000
Subject: [PATCH 30/57] fix: floating point symbols lost precision in exports
 and symbols files

---
 src/node.c | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/node.c b/src/node.c
index af08d1d..5fcfe84 100644
--- a/src/node.c
+++ b/src/node.c
@@ -14,11 +14,13 @@ option) any later version.
 
 #include <assert.h>
 #include <inttypes.h>
+#include <math.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
 
 #include "xalloc.h"
+#include "xvasprintf.h"
 
 #include "error.h"
 #include "node.h"
@@ -306,6 +308,30 @@ static const char *opstr(int op) {
 	return str;
 }
 
+/* Print a floating point number such that the same value is read back in.
+ * Source syntax does not include exponents. */
+
+static void print_float(FILE *f, double v) {
+	if (isnan(v)) {
+		fprintf(f, "(0.0 / 0)");
+		return;
+	}
+	if (isinf(v)) {
+		fprintf(f, "(%s1.0 / 0)", (v < 0) ? "-" : "");
+		return;
+	}
+	// doubles have at most 1074 fractional digits
+	for (int prec = 1; prec <= 1074; prec++) {
+		char *s = xasprintf("%.*f", prec, v);
+		_Bool done = (strtod(s, NULL) == v || prec == 1074);
+		if (done)
+			fprintf(f, "%s", s);
+		free(s);
+		if (done)
+			break;
+	}
+}
+
 /* Print the contents of a string delimited by '/'. */
 
 static void print_quoted(FILE *f, char const *s) {
@@ -375,7 +401,7 @@ void node_print(FILE *f, struct node const *n) {
 		fprintf(f, "%"PRId64, n->data.as_int);
 		break;
 	case node_type_float:
-		fprintf(f, "%f", n->data.as_float);
+		print_float(f, n->data.as_float);
 		break;
 	case node_type_reg:
 		fprintf(f, "%s", reg_id_to_name(n->data.as_reg));
-- 
2.43.0


From cf504f1236575f56e0eecac76be8ca98497f98f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:07 +0000
Subject: [PATCH 31/57] fix: auto increment/decrement lost from registers in
 exports and symbols files

---
 src/program.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/program.c b/src/program.c
index 0449d36..3cad585 100644
--- a/src/program.c
+++ b/src/program.c
@@ -230,7 +230,9 @@ static void print_symbol(const char *key, FILE *f) {
 		if (!n)
 			return;
 		enum node_attr old_attr = node_attr_of(n);
-		n = node_set_attr(n, node_attr_none);
+		// any auto increment/decrement is part of a register's value
+		if (node_type_of(n) != node_type_reg)
+			n = node_set_attr(n, node_attr_none);
 		switch (node_type_of(n)) {
 		default:
 			error(error_type_syntax, "can't export symbol type");
-- 
2.43.0


From 730fbadaeedcd6f9f167d10b2bae308b6e551b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:27 +0000
Subject: [PATCH 32/57] fix: EXPORT silently ignored arguments that do not name
 a symbol

---
 src/assemble.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/assemble.c b/src/assemble.c
index 0ceb9ac..071556d 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -719,6 +719,8 @@ static void pseudo_export(struct prog_line *line) {
 		if (n) {
 			prog_export(n->data.as_string);
 			node_free(n);
+		} else {
+			error(error_type_syntax, "invalid argument to EXPORT");
 		}
 	}
 }
-- 
2.43.0


From 52a618662b22a18efed41a1dbd212e1906b51fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:28 +0000
Subject: [PATCH 33/57] fix: failure to read INCLUDEBIN file was not reported

---
 src/assemble.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/assemble.c b/src/assemble.c
index 071556d..87d21eb 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -977,6 +977,8 @@ static void pseudo_includebin(struct prog_line *line) {
 	while ((c = fgetc(f)) != EOF) {
 		section_emit_uint8(c);
 	}
+	if (ferror(f))
+		error(error_type_fatal, "failed to read file: %s", arga[0]->data.as_string);
 	fclose(f);
 }
 
-- 
2.43.0


From 0764104abb40284359c358da7cce02516f367543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 34/57] fix: unfinished macro left dangling reference used by
 next file

---
 src/assemble.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/assemble.c b/src/assemble.c
index 87d21eb..a3716e8 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -573,6 +573,15 @@ next_line:
 		error(error_type_syntax, "IF not matched with ENDIF");
 	}
 
+	/* A macro definition can't continue beyond the end of this program */
+	if (defining_macro_level > 0) {
+		error(error_type_syntax, "unfinished macro");
+		if (defining_macro_ctx)
+			prog_ctx_free(defining_macro_ctx);
+		defining_macro_ctx = NULL;
+		defining_macro_level = 0;
+	}
+
 	assert(prog_depth > 0);
 	prog_depth--;
 	prog_ctx_free(ctx);
-- 
2.43.0


From 8786ae169746dbcacf6ae5bafe32b24206370daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:13 +0000
Subject: [PATCH 35/57] fix: macro definition selected by conditional in later
 pass was ignored

---
 src/assemble.c | 7 ++++---
 src/program.c  | 5 +----
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/assemble.c b/src/assemble.c
index a3716e8..3595116 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -1005,11 +1005,12 @@ static void pseudo_macro(struct prog_line *line) {
 		return;
 	}
 	struct prog *macro = prog_macro_by_name(name);
-	if (macro) {
-		if (macro->pass == asm_pass)
-			error(error_type_syntax, "macro '%s' redefined", name);
+	if (macro && macro->pass == asm_pass) {
+		error(error_type_syntax, "macro '%s' redefined", name);
 		return;
 	}
+	/* Defined anew each pass, as conditional assembly may select a
+	 * different definition to that in an earlier pass. */
 	macro = prog_new_macro(name);
 	macro->pass = asm_pass;
 	defining_macro_ctx = prog_ctx_new(macro);
diff --git a/src/program.c b/src/program.c
index 3cad585..1c6c21b 100644
--- a/src/program.c
+++ b/src/program.c
@@ -66,10 +66,7 @@ struct prog *prog_new_file(const char *filename) {
 }
 
 struct prog *prog_new_macro(const char *name) {
-	if (prog_macro_by_name(name)) {
-		error(error_type_syntax, "attempt to redefined macro '%s'", name);
-		return NULL;
-	}
+	/* Added to head of list, so supersedes any earlier definition */
 	struct prog *macro = prog_new(prog_type_macro, name);
 	macros = slist_prepend(macros, macro);
 	return macro;
-- 
2.43.0


From 23a157671648025cb329fe44adc7fc0936fd5c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:52 +0000
Subject: [PATCH 36/57] fix: local labels skipped by conditional in later pass
 were still referenced

---
 src/section.c |  1 +
 src/symbol.c  | 22 +++++++++++++++++++++-
 src/symbol.h  |  3 +++
 3 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/section.c b/src/section.c
index 715ed02..21f1ecf 100644
--- a/src/section.c
+++ b/src/section.c
@@ -143,6 +143,7 @@ static void verify_section(void *key, void *value, void *data) {
 	struct section *sect = value;
 	if (!sect)
 		return;
+	symbol_local_finish_pass(sect->local_labels, cur_section->pass);
 	/* Discard old data if section not selected during this pass */
 	if (sect->pass != cur_section->pass) {
 		slist_free_full(sect->spans, (slist_free_func)section_span_free);
diff --git a/src/symbol.c b/src/symbol.c
index f89a813..7e103de 100644
--- a/src/symbol.c
+++ b/src/symbol.c
@@ -48,6 +48,7 @@ struct symbol {
 };
 
 struct symbol_local {
+	unsigned pass;
 	unsigned line_number;
 	struct node *node;
 };
@@ -220,7 +221,6 @@ struct node *symbol_local_fwdref(struct dict *table, intptr_t key, unsigned line
 
 void symbol_local_set(struct dict *table, intptr_t key, unsigned line_number,
 		      struct node *value, unsigned pass) {
-	(void)pass;
 	gl_list_t sym_list = dict_lookup(table, (void *)key);
 	gl_list_node_t old_lnode = NULL;
 	struct symbol_local const *old_sym = NULL;
@@ -235,15 +235,35 @@ void symbol_local_set(struct dict *table, intptr_t key, unsigned line_number,
 	}
 	struct node *newn = eval_node(value);
 	struct symbol_local *new_sym = xmalloc(sizeof(*new_sym));
+	new_sym->pass = pass;
 	new_sym->line_number = line_number;
 	new_sym->node = newn;
 	if (old_sym) {
 		if (!node_equal(old_sym->node, newn))
 			error(error_type_inconsistent,
 			      "value of local label '%ld' unstable", key);
+	} else if (pass > 0) {
+		// might have been referenced earlier in this pass
+		error(error_type_inconsistent,
+		      "position of local label '%ld' unstable", key);
 	}
 	if (old_lnode) {
 		gl_list_remove_node(sym_list, old_lnode);
 	}
 	gl_sortedlist_add(sym_list, sym_local_compar, new_sym);
 }
+
+static void finish_pass_list(intptr_t key, gl_list_t sym_list, unsigned *pass) {
+	for (size_t i = gl_list_size(sym_list); i > 0; i--) {
+		struct symbol_local const *sym = gl_list_get_at(sym_list, i - 1);
+		if (sym->pass != *pass) {
+			gl_list_remove_at(sym_list, i - 1);
+			error(error_type_inconsistent,
+			      "position of local label '%ld' unstable", key);
+		}
+	}
+}
+
+void symbol_local_finish_pass(struct dict *table, unsigned pass) {
+	dict_foreach(table, (dict_iter_func)finish_pass_list, &pass);
+}
diff --git a/src/symbol.h b/src/symbol.h
index 03705f6..5f53df2 100644
--- a/src/symbol.h
+++ b/src/symbol.h
@@ -59,4 +59,7 @@ struct node *symbol_local_fwdref(struct dict *table, intptr_t key, unsigned line
 void symbol_local_set(struct dict *table, intptr_t key, unsigned line_number,
 		      struct node *value, unsigned pass);
 
+/* Discard local labels not encountered during this pass. */
+void symbol_local_finish_pass(struct dict *table, unsigned pass);
+
 #endif
-- 
2.43.0


From 292f1ef79a292947b58a3b0404603119a656565b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:22 +0000
Subject: [PATCH 37/57] fix: recursive macro took time exponential in maximum
 depth to be rejected

---
 src/assemble.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/assemble.c b/src/assemble.c
index 3595116..b71e17e 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -42,6 +42,7 @@ static int defining_macro_level = 0;
 
 static unsigned asm_pass;
 static unsigned prog_depth = 0;
+static _Bool prog_depth_exceeded = 0;
 
 enum cond_state {
 	cond_state_if,
@@ -288,8 +289,11 @@ static int64_t have_int_required(struct node *args, int aindex, const char *op,
 void assemble_prog(struct prog *prog, unsigned pass) {
 	if (prog_depth >= asm6809_options.max_program_depth) {
 		error(error_type_fatal, "maximum program depth exceeded");
+		prog_depth_exceeded = 1;
 		return;
 	}
+	if (prog_depth == 0)
+		prog_depth_exceeded = 0;
 	asm_pass = pass;
 	prog_depth++;
 	struct prog_ctx *ctx = prog_ctx_new(prog);
@@ -300,7 +304,9 @@ void assemble_prog(struct prog *prog, unsigned pass) {
 	struct slist *cond_list = NULL;
 	struct slist *cond_excluded = NULL;
 
-	while (!prog_ctx_end(ctx)) {
+	/* If maximum depth is exceeded, don't try to process the rest of each
+	 * enclosing program, as each line may well exceed it again. */
+	while (!prog_ctx_end(ctx) && !prog_depth_exceeded) {
 		/* Dummy line to be populated with values evaluated or not, as
 		 * appropriate. */
 		struct prog_line n_line;
-- 
2.43.0


From e6cbb07d8eb4439623f5f1bd23b8230e7fe1e3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:23 +0000
Subject: [PATCH 38/57] fix: enormous counts exhausted memory or were silently
 truncated

---
 src/assemble.c | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/assemble.c b/src/assemble.c
index b71e17e..8961912 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -62,6 +62,7 @@ static void args_float_to_int(struct node *args);
 static int verify_num_args(struct node *args, int min, int max, const char *op);
 static int64_t have_int_optional(struct node *args, int aindex, const char *op, int64_t in);
 static int64_t have_int_required(struct node *args, int aindex, const char *op, int64_t in);
+static _Bool verify_count(int64_t count, const char *op);
 
 /* Pseudo-operations */
 
@@ -282,6 +283,21 @@ static int64_t have_int_required(struct node *args, int aindex, const char *op,
 	return have_int_optional(args, aindex, op, in);
 }
 
+/* Verify number of bytes to emit or reserve.  More than the size of addressable
+ * memory can't be valid.  Returns 0 if bad. */
+
+static _Bool verify_count(int64_t count, const char *op) {
+	if (count < 0) {
+		error(error_type_out_of_range, "negative count for %s", op);
+		return 0;
+	}
+	if (count > 0x10000) {
+		error(error_type_out_of_range, "count for %s exceeds addressable memory", op);
+		return 0;
+	}
+	return 1;
+}
+
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
 /* Perform an assembly pass on a program. */
@@ -895,9 +911,8 @@ static void pseudo_rzb(struct prog_line *line) {
 		return;
 	long count = have_int_required(line->args, 0, "RZB", 0);
 	long fill = have_int_optional(line->args, 1, "RZB", 0);
-	if (count < 0) {
-		error(error_type_out_of_range, "negative count for RZB");
-	}
+	if (!verify_count(count, "RZB"))
+		return;
 	for (long i = 0; i < count; i++)
 		section_emit_uint8(fill);
 }
@@ -909,9 +924,8 @@ static void pseudo_fill(struct prog_line *line) {
 		return;
 	long fill = have_int_required(line->args, 0, "FILL", 0);
 	long count = have_int_required(line->args, 1, "FILL", 0);
-	if (count < 0) {
-		error(error_type_out_of_range, "negative count for FILL");
-	}
+	if (!verify_count(count, "FILL"))
+		return;
 	for (long i = 0; i < count; i++)
 		section_emit_uint8(fill);
 }
@@ -922,10 +936,8 @@ static void pseudo_rmb(struct prog_line *line) {
 	if (verify_num_args(line->args, 1, 1, "RMB") < 0)
 		return;
 	long count = have_int_required(line->args, 0, "RMB", 0);
-	if (count < 0) {
-		error(error_type_out_of_range, "negative argument to RMB");
+	if (!verify_count(count, "RMB"))
 		return;
-	}
 	section_skip(count);
 }
 
@@ -942,6 +954,8 @@ static void pseudo_align(struct prog_line *line) {
 		return;
 	}
 	long count = (align - (cur_section->pc % align)) % align;
+	if (!verify_count(count, "ALIGN"))
+		return;
 	if (nargs < 2) {
 		section_skip(count);
 	} else {
-- 
2.43.0


From 8c7be058463f59af8c778baaf11cdb94a8d9f5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:00 +0000
Subject: [PATCH 39/57] fix: conversion of out of range floating point values
 to integer was undefined

---
 src/assemble.c | 31 +++++++++++++++----------------
 src/eval.c     | 12 ++++++++++--
 src/eval.h     |  4 ++++
 3 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/src/assemble.c b/src/assemble.c
index 8961912..19882c1 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -13,6 +13,7 @@ option) any later version.
 #include "config.h"
 
 #include <assert.h>
+#include <math.h>
 #include <stdarg.h>
 #include <stdint.h>
 #include <stdio.h>
@@ -265,7 +266,7 @@ static int64_t have_int_optional(struct node *args, int aindex, const char *op,
 		in = arga[aindex]->data.as_int;
 		break;
 	case node_type_float:
-		in = arga[aindex]->data.as_float;
+		in = eval_float_to_int(arga[aindex]->data.as_float);
 		break;
 	}
 	return in;
@@ -633,6 +634,16 @@ static void set_label(struct node *label, struct node *value, _Bool changeable)
 
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
+/* List a symbol's value, if it has one representable as an integer. */
+
+static void list_value(struct node *value, char const *text) {
+	struct node *n = NULL;
+	if (node_type_of(value) != node_type_float || fabs(value->data.as_float) < 0x1p63)
+		n = eval_int(value);
+	listing_add_line(n ? (n->data.as_int & 0xffff) : -1, 0, NULL, text);
+	node_free(n);
+}
+
 /* EQU.  A symbol with the name of this line's label is assigned a value. */
 
 /* TODO: would be nice to support EQU arrays */
@@ -642,13 +653,7 @@ static void pseudo_equ(struct prog_line *line) {
 		return;
 	struct node **arga = node_array_of(line->args);
 	set_label(line->label, node_ref(arga[0]), 0);
-	struct node *n = eval_int(arga[0]);
-	if (n) {
-		listing_add_line(n->data.as_int & 0xffff, 0, NULL, line->text);
-		node_free(n);
-	} else {
-		listing_add_line(-1, 0, NULL, line->text);
-	}
+	list_value(arga[0], line->text);
 }
 
 /* SET.  As EQU, but symbol is permitted to change value. */
@@ -658,13 +663,7 @@ static void pseudo_set(struct prog_line *line) {
 		return;
 	struct node **arga = node_array_of(line->args);
 	set_label(line->label, node_ref(arga[0]), 1);
-	struct node *n = eval_int(arga[0]);
-	if (n) {
-		listing_add_line(n->data.as_int & 0xffff, 0, NULL, line->text);
-		node_free(n);
-	} else {
-		listing_add_line(-1, 0, NULL, line->text);
-	}
+	list_value(arga[0], line->text);
 }
 
 /* ORG.  Following instructions will be assembled to this address. */
@@ -792,7 +791,7 @@ static void emit_formatted(char const *ins, int argn, struct node *n,
 		section_emit_uint8(n->data.as_int | or_last);
 		break;
 	case node_type_float:
-		section_emit_uint8((int32_t)n->data.as_float | or_last);
+		section_emit_uint8(eval_float_to_int(n->data.as_float) | or_last);
 		break;
 	case node_type_string:
 		for (char const *c = n->data.as_string; *c; c++) {
diff --git a/src/eval.c b/src/eval.c
index 902dbc5..358477c 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -196,10 +196,18 @@ struct node *eval_float(struct node *n) {
 	return NULL;
 }
 
+int64_t eval_float_to_int(double v) {
+	if (v >= -0x1p63 && v < 0x1p63)
+		return v;
+	// includes infinities and NaN
+	error(error_type_out_of_range, "floating point value has no integer equivalent");
+	return 0;
+}
+
 struct node *eval_int(struct node *n) {
 	switch (node_type_of(n)) {
 	case node_type_float:
-		return node_set_attr(node_new_int(n->data.as_float), n->attr);
+		return node_set_attr(node_new_int(eval_float_to_int(n->data.as_float)), n->attr);
 	case node_type_int:
 		return node_ref(n);
 	case node_type_string:
@@ -248,7 +256,7 @@ struct node *eval_int_free(struct node *n) {
 	}
 	if (n->type == node_type_float) {
 		n->type = node_type_int;
-		n->data.as_int = n->data.as_float;
+		n->data.as_int = eval_float_to_int(n->data.as_float);
 		return n;
 	}
 	if (n->type == node_type_int)
diff --git a/src/eval.h b/src/eval.h
index ad85ed5..93f5b4f 100644
--- a/src/eval.h
+++ b/src/eval.h
@@ -26,6 +26,10 @@ struct node *eval_string(struct node *n);
 struct node *eval_float(struct node *n);
 struct node *eval_int(struct node *n);
 
+/* Truncate a floating point value to an integer.  Raises an error if it has no
+ * integer equivalent (out of range, infinite, NaN). */
+int64_t eval_float_to_int(double v);
+
 /*
  * These variants free the old node before returning the new.
  */
-- 
2.43.0


From 906dda2c27e43ec6b2bd9491d9fa0a787749a5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:26 +0000
Subject: [PATCH 40/57] fix: values that can't be pasted into a name silently
 left it undefined

---
 src/eval.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eval.c b/src/eval.c
index 358477c..e4097ea 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -162,6 +162,7 @@ struct node *eval_string(struct node *n) {
 			break;
 		case node_type_reg:
 			if (tmp->attr != node_attr_none) {
+				error(error_type_syntax, "value can't form part of a name or string");
 				node_free(tmp);
 				node_free(out);
 				return NULL;
@@ -169,6 +170,7 @@ struct node *eval_string(struct node *n) {
 			addtext = xstrdup(reg_id_to_name(tmp->data.as_reg));
 			break;
 		default:
+			error(error_type_syntax, "value can't form part of a name or string");
 			node_free(tmp);
 			node_free(out);
 			return NULL;
-- 
2.43.0


From aae55c04bc2ad15b658ea5d6cb3de1256be5dab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:44 +0000
Subject: [PATCH 41/57] fix: sections selected by CODE, DATA, etc. depended on
 letter case

---
 src/assemble.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/assemble.c b/src/assemble.c
index 19882c1..c9a5705 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -20,9 +20,11 @@ option) any later version.
 #include <stdlib.h>
 
 #include "array.h"
+#include "c-ctype.h"
 #include "c-strcase.h"
 #include "dict.h"
 #include "slist.h"
+#include "xalloc.h"
 
 #include "asm6809.h"
 #include "assemble.h"
@@ -703,7 +705,12 @@ static void pseudo_section(struct prog_line *line) {
  */
 
 static void pseudo_section_name(struct prog_line *line) {
-	section_set(line->opcode->data.as_string, asm_pass);
+	/* Pseudo-ops are not case sensitive, but section names are */
+	char *name = xstrdup(line->opcode->data.as_string);
+	for (char *c = name; *c; c++)
+		*c = c_toupper(*c);
+	section_set(name, asm_pass);
+	free(name);
 	set_label(line->label, node_new_int(cur_section->pc), 0);
 	listing_add_line(cur_section->pc, 0, NULL, line->text);
 }
-- 
2.43.0


From 6699d08118caca1de4e074144a140308f08e66a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:27 +0000
Subject: [PATCH 42/57] fix: no diagnostic if only the end of a section was
 unstable

---
 src/section.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/section.c b/src/section.c
index 21f1ecf..2f9bc85 100644
--- a/src/section.c
+++ b/src/section.c
@@ -138,7 +138,6 @@ void section_set(const char *name, unsigned pass) {
 }
 
 static void verify_section(void *key, void *value, void *data) {
-	(void)key;
 	(void)data;
 	struct section *sect = value;
 	if (!sect)
@@ -154,7 +153,7 @@ static void verify_section(void *key, void *value, void *data) {
 	if (sect->last_pc != sect->pc || sect->last_put != sect->put) {
 		sect->last_pc = sect->pc;
 		sect->last_put = sect->put;
-		error(error_type_inconsistent, NULL);
+		error(error_type_inconsistent, "end of section '%s' unstable", (const char *)key);
 	}
 }
 
-- 
2.43.0


From 6ff1ba91eba01354590aa1dcf5bb4f28119cedb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:28 +0000
Subject: [PATCH 43/57] fix: symbol only found undefined in an earlier pass
 made symbols file fail

---
 src/program.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/program.c b/src/program.c
index 1c6c21b..fa9b372 100644
--- a/src/program.c
+++ b/src/program.c
@@ -286,8 +286,13 @@ void prog_print_symbols(FILE *f) {
 	for (struct slist *l = symbols; l; l = l->next) {
 		const char *key = l->data;
 		// internal symbols (e.g. ".exec") can't be named in source
-		if (key[0] != '.')
+		if (key[0] == '.')
+			continue;
+		// a symbol only set during an earlier pass may never have had a value
+		struct node *n = symbol_try_get(key);
+		if (n)
 			print_symbol(key, f);
+		node_free(n);
 	}
 	slist_free(symbols);
 }
-- 
2.43.0


From aaa81959093404526c78446064713fce80db57e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:31 +0000
Subject: [PATCH 44/57] fix: --max-passes rejected if following an option whose
 value overflowed

---
 src/asm6809.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/asm6809.c b/src/asm6809.c
index 4aae48f..5459abc 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -146,6 +146,7 @@ int main(int argc, char **argv) {
 			break;
 		case 'P':
 			{
+				errno = 0;
 				long v = strtol(optarg, NULL, 0);
 				if (errno != 0 || v < 2 || v > 255) {
 					error(error_type_fatal, "invalid value for max-passes");
-- 
2.43.0


From 60e9022c0d4e2fde2edf059573a1b5a99a257d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:33 +0000
Subject: [PATCH 45/57] fix: floating point values (any division) rejected in
 indirect operands

---
 src/assemble.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/assemble.c b/src/assemble.c
index c9a5705..9b2ca92 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -220,6 +220,8 @@ static void args_float_to_int(struct node *args) {
 	for (int i = 0; i < nargs; i++) {
 		if (node_type_of(arga[i]) == node_type_float)
 			arga[i] = eval_int_free(arga[i]);
+		else
+			args_float_to_int(arga[i]);
 	}
 }
 
-- 
2.43.0


From 0f20909b9a1689e151cda979cd343f9d22480b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:24 +0000
Subject: [PATCH 46/57] fix: EXPORT of name pasted from a forward reference
 failed

---
 src/assemble.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/assemble.c b/src/assemble.c
index 9b2ca92..78045c2 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -758,7 +758,10 @@ static void pseudo_export(struct prog_line *line) {
 		if (n) {
 			prog_export(n->data.as_string);
 			node_free(n);
-		} else {
+		} else if (node_type_of(arga[i]) != node_type_id &&
+			   node_type_of(arga[i]) != node_type_text) {
+			// failing to evaluate those reports its own error,
+			// possibly just an inconsistency
 			error(error_type_syntax, "invalid argument to EXPORT");
 		}
 	}
-- 
2.43.0


From bcc5572fcee70675408e645ee3bb020982b292a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:01 +0000
Subject: [PATCH 47/57] fix: lines longer than 16384 characters silently ended
 the source

---
 src/lex.l | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lex.l b/src/lex.l
index b1d81b7..03aaafe 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -237,7 +237,9 @@ static _Bool need_eol = 1;
 static int read_line(char *buf, int max_size) {
 	if (!yyin)
 		return YY_NULL;
-	char *r = fgets(buf, max_size, yyin);
+	/* flex leaves room for a terminator beyond max_size, and may ask for
+	 * as little as one character */
+	char *r = fgets(buf, max_size + 1, yyin);
 	if (!r) {
 		if (!feof(yyin)) {
 			error(error_type_fatal, "scanner read failed");
-- 
2.43.0


From abb12e767555ead3edd61db9279e5657fee2984b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:17 +0000
Subject: [PATCH 48/57] fix: most negative integer exported as a number that
 can't be read back

---
 src/node.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/node.c b/src/node.c
index 5fcfe84..3980ace 100644
--- a/src/node.c
+++ b/src/node.c
@@ -398,7 +398,12 @@ void node_print(FILE *f, struct node const *n) {
 	case node_type_empty:
 		break;
 	case node_type_int:
-		fprintf(f, "%"PRId64, n->data.as_int);
+		// the most negative number has no positive counterpart, so
+		// can't be read back as the negation of one
+		if (n->data.as_int == INT64_MIN)
+			fprintf(f, "(%"PRId64" - 1)", INT64_MIN + 1);
+		else
+			fprintf(f, "%"PRId64, n->data.as_int);
 		break;
 	case node_type_float:
 		print_float(f, n->data.as_float);
-- 
2.43.0


From 39f0cd97369ffc388fb075e13abf3e5fdeb127cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:25 +0000
Subject: [PATCH 49/57] fix: source silently ended at a line that exhausts the
 parser's stack

---
 src/grammar.y | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/grammar.y b/src/grammar.y
index 83d619c..41d6c3d 100644
--- a/src/grammar.y
+++ b/src/grammar.y
@@ -211,7 +211,10 @@ struct prog *grammar_parse_file(const char *filename) {
 	}
 	struct prog *prog = prog_new(prog_type_file, filename);
 	cur_ctx = prog_ctx_new(prog);
-	yyparse();
+	if (yyparse() != 0) {
+		cur_ctx->line_number++;
+		error(error_type_fatal, "line too complex to parse");
+	}
 	prog_ctx_free(cur_ctx);
 	cur_ctx = NULL;
 	if (yyin)
-- 
2.43.0


From 3238ba29c9fe24c902a8d1f1e03b010760072f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:59 +0000
Subject: [PATCH 50/57] fix: expressions of very many operators overflowed the
 stack

---
 src/grammar.y | 37 ++++++++++++++++++++++++++++---------
 src/node.c    | 20 ++++++++++++++------
 src/node.h    |  1 +
 3 files changed, 43 insertions(+), 15 deletions(-)

diff --git a/src/grammar.y b/src/grammar.y
index 41d6c3d..e786d7e 100644
--- a/src/grammar.y
+++ b/src/grammar.y
@@ -26,12 +26,15 @@ option) any later version.
 #include "slist.h"
 
 static void raise_error(void);
+static struct node *limit_depth(struct node *n);
 static void yyerror(const char *);
 void yylex_destroy(void);
 int yylex(void);
 char *lex_fetch_line(void);
 void lex_free_all(void);
 
+#define MAX_EXPR_DEPTH (10000)
+
 extern FILE *yyin;
 static struct prog_ctx *cur_ctx = NULL;
 
@@ -70,7 +73,7 @@ static void check_end_opcode(struct prog_line *line);
 %type <as_node> idpart strpart arg
 %type <as_node> arglist
 %type <as_list> idlist strlist
-%type <as_node> expr reg
+%type <as_node> expr oper reg
 %type <as_line> line
 
 %right '?' ':'
@@ -142,7 +145,17 @@ reg	: REGISTER		{ $$ = node_new_reg($1); }
 	;
 
 expr	: '(' expr ')'		{ $$ = $2; }
-	| '-' expr %prec UMINUS	{ $$ = node_new_oper_1('-', $2); }
+	| oper			{ $$ = limit_depth($1); }
+	| INTEGER		{ $$ = node_new_int($1); }
+	| FLOAT			{ $$ = node_new_float($1); }
+	| BACKREF		{ $$ = node_new_backref($1); }
+	| FWDREF		{ $$ = node_new_fwdref($1); }
+	| '*'			{ $$ = node_new_pc(); }
+	| string		{ $$ = $1; }
+	| id			{ $$ = $1; }
+	;
+
+oper	: '-' expr %prec UMINUS	{ $$ = node_new_oper_1('-', $2); }
 	| '+' expr %prec UMINUS	{ $$ = node_new_oper_1('+', $2); }
 	| DEC2 expr %prec UMINUS	{ $$ = node_new_oper_1('-', node_new_oper_1('-', $2)); }
 	| INC2 expr %prec UMINUS	{ $$ = node_new_oper_1('+', node_new_oper_1('+', $2)); }
@@ -169,13 +182,6 @@ expr	: '(' expr ')'		{ $$ = $2; }
 	| expr LAND expr	{ $$ = node_new_oper_2(LAND, $1, $3); }
 	| expr LOR expr		{ $$ = node_new_oper_2(LOR, $1, $3); }
 	| expr '?' expr ':' expr	{ $$ = node_new_oper_3('?', $1, $3, $5); }
-	| INTEGER		{ $$ = node_new_int($1); }
-	| FLOAT			{ $$ = node_new_float($1); }
-	| BACKREF		{ $$ = node_new_backref($1); }
-	| FWDREF		{ $$ = node_new_fwdref($1); }
-	| '*'			{ $$ = node_new_pc(); }
-	| string		{ $$ = $1; }
-	| id			{ $$ = $1; }
 	;
 
 string	: DELIM strlist DELIM	{ $$ = node_new_text($2); }
@@ -199,6 +205,19 @@ static void raise_error(void) {
 	error(error_type_syntax, "");
 }
 
+/* Expressions are evaluated (and freed) recursively, so limit their depth.
+ * Parentheses and the like are limited by the depth of the parser's stack. */
+
+static struct node *limit_depth(struct node *n) {
+	if (n->data.as_oper.depth <= MAX_EXPR_DEPTH)
+		return n;
+	node_free(n);
+	cur_ctx->line_number++;
+	error(error_type_fatal, "expression too complex");
+	cur_ctx->line_number--;
+	return node_new_int(0);
+}
+
 static void yyerror(const char *s) {
 	(void)s;
 }
diff --git a/src/node.c b/src/node.c
index 3980ace..3edb2bd 100644
--- a/src/node.c
+++ b/src/node.c
@@ -237,10 +237,18 @@ struct node *node_new_text(struct slist *v) {
 	return n;
 }
 
+static void node_set_oper_arg(struct node *n, int i, struct node *a) {
+	n->data.as_oper.args[i] = a;
+	if (node_type_of(a) == node_type_oper &&
+	    n->data.as_oper.depth <= a->data.as_oper.depth)
+		n->data.as_oper.depth = a->data.as_oper.depth + 1;
+}
+
 static struct node *node_new_oper_n(int oper, int nargs) {
 	struct node *n = node_new(node_type_oper);
 	struct node **arga = xmalloc(nargs * sizeof(*arga));
 	n->data.as_oper.oper = oper;
+	n->data.as_oper.depth = 1;
 	n->data.as_oper.nargs = nargs;
 	n->data.as_oper.args = arga;
 	return n;
@@ -248,22 +256,22 @@ static struct node *node_new_oper_n(int oper, int nargs) {
 
 struct node *node_new_oper_1(int oper, struct node *a1) {
 	struct node *n = node_new_oper_n(oper, 1);
-	n->data.as_oper.args[0] = a1;
+	node_set_oper_arg(n, 0, a1);
 	return n;
 }
 
 struct node *node_new_oper_2(int oper, struct node *a1, struct node *a2) {
 	struct node *n = node_new_oper_n(oper, 2);
-	n->data.as_oper.args[0] = a1;
-	n->data.as_oper.args[1] = a2;
+	node_set_oper_arg(n, 0, a1);
+	node_set_oper_arg(n, 1, a2);
 	return n;
 }
 
 struct node *node_new_oper_3(int oper, struct node *a1, struct node *a2, struct node *a3) {
 	struct node *n = node_new_oper_n(oper, 3);
-	n->data.as_oper.args[0] = a1;
-	n->data.as_oper.args[1] = a2;
-	n->data.as_oper.args[2] = a3;
+	node_set_oper_arg(n, 0, a1);
+	node_set_oper_arg(n, 1, a2);
+	node_set_oper_arg(n, 2, a3);
 	return n;
 }
 
diff --git a/src/node.h b/src/node.h
index 03453dc..6ef35d7 100644
--- a/src/node.h
+++ b/src/node.h
@@ -87,6 +87,7 @@ struct node;
 
 struct node_oper {
 	int oper;
+	int depth;
 	int nargs;
 	struct node **args;
 };
-- 
2.43.0


From bf340c869112d9f7aca38d53b2016709ad6a5724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:25 +0000
Subject: [PATCH 51/57] fix: crash when assembling at an address too large for
 the program counter

---
 src/assemble.c | 13 +++++++++++--
 src/section.c  |  8 +++-----
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/assemble.c b/src/assemble.c
index 78045c2..dac0509 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -13,6 +13,7 @@ option) any later version.
 #include "config.h"
 
 #include <assert.h>
+#include <limits.h>
 #include <math.h>
 #include <stdarg.h>
 #include <stdint.h>
@@ -675,7 +676,11 @@ static void pseudo_set(struct prog_line *line) {
 static void pseudo_org(struct prog_line *line) {
 	if (verify_num_args(line->args, 1, 1, "ORG") < 0)
 		return;
-	long new_pc = have_int_required(line->args, 0, "ORG", cur_section->pc);
+	int64_t new_pc = have_int_required(line->args, 0, "ORG", cur_section->pc);
+	if (new_pc < INT_MIN || new_pc > INT_MAX) {
+		error(error_type_out_of_range, "invalid address for ORG");
+		new_pc = cur_section->pc;
+	}
 	cur_section->pc = new_pc;
 	if (new_pc >= 0)
 		cur_section->put = new_pc;
@@ -723,11 +728,15 @@ static void pseudo_section_name(struct prog_line *line) {
 static void pseudo_put(struct prog_line *line) {
 	if (verify_num_args(line->args, 1, 1, "PUT") < 0)
 		return;
-	long new_put = have_int_required(line->args, 0, "PUT", cur_section->put);
+	int64_t new_put = have_int_required(line->args, 0, "PUT", cur_section->put);
 	if (new_put < 0) {
 		error(error_type_out_of_range, "invalid negative address for PUT");
 		return;
 	}
+	if (new_put > INT_MAX) {
+		error(error_type_out_of_range, "invalid address for PUT");
+		return;
+	}
 	cur_section->put = new_put;
 }
 
diff --git a/src/section.c b/src/section.c
index 2f9bc85..1f74181 100644
--- a/src/section.c
+++ b/src/section.c
@@ -259,12 +259,14 @@ static void section_emit(uint8_t const *buf, int nbytes) {
 
 	if (cur_section->pc < 0) {
 		error(error_type_out_of_range, "assembling to negative address");
+	} else if (cur_section->pc > 0x10000 - nbytes) {
+		error(error_type_out_of_range, "assembling beyond addressable memory");
 	}
 
 	cur_section->put += nbytes;
 	cur_section->pc += nbytes;
 
-	if (cur_section->pc >= (int)(span->org + span->allocated)) {
+	if (span->size + nbytes >= span->allocated) {
 		span->allocated += 128;
 		span->data = xrealloc(span->data, span->allocated);
 	}
@@ -275,10 +277,6 @@ static void section_emit(uint8_t const *buf, int nbytes) {
 		memcpy(&span->data[span->size], buf, nbytes);
 	}
 	span->size += nbytes;
-
-	if (cur_section->pc > 0x10000) {
-		error(error_type_out_of_range, "assembling beyond addressable memory");
-	}
 }
 
 void section_emit_pad(int nbytes) {
-- 
2.43.0


From 8b0035a7a915043db462502933721a4410b6edb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:42 +0000
Subject: [PATCH 52/57] fix: abnormal end when memory is exhausted

---
 src/error.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/error.c b/src/error.c
index 527703e..c398e2d 100644
--- a/src/error.c
+++ b/src/error.c
@@ -97,6 +97,16 @@ void error_abort(const char *fmt, ...) {
 	exit(EXIT_FAILURE);
 }
 
+/*
+ * Called when memory is exhausted.  The default provided by gnulib would use
+ * error(3), hidden by our own error().
+ */
+
+void xalloc_die(void) {
+	fprintf(stderr, "error: memory exhausted\n");
+	exit(EXIT_FAILURE);
+}
+
 /*
  * Clear all errors reported in the previous pass.
  */
-- 
2.43.0


From 372d4e934383b146cf7cda5256b748d13a546ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:45 +0000
Subject: [PATCH 53/57] fix: compare the whole value of a register number with
 its range

---
 src/instr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/instr.c b/src/instr.c
index aab32df..ecb246f 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -567,7 +567,7 @@ void instr_pair(struct opcode const *op, struct node const *args) {
 				return;
 			}
 		} else if (type[i] == node_type_int) {
-			int v = arga[i]->data.as_int;
+			int64_t v = arga[i]->data.as_int;
 			if (v == 0 && asm6809_options.isa == asm6809_isa_6309) {
 				nibble[i] = 0x0c;
 				size[i] = 16 | 8;
@@ -621,7 +621,7 @@ void instr_tfm(struct opcode const *op, struct node const *args) {
 			}
 			nibble[i] = v;
 		} else if (type[i] == node_type_int) {
-			int v = arga[i]->data.as_int;
+			int64_t v = arga[i]->data.as_int;
 			error(error_type_illegal, "numerical values used in TFM op");
 			if (v < 0 || v > 4) {
 				error(error_type_out_of_range, "numeric value for register out of range");
-- 
2.43.0


From 29506ce95a558534800a7bc6207a8e8d2edd8fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:06 +0000
Subject: [PATCH 54/57] fix: notice when only the increment of a register
 symbol changes between passes

---
 src/node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node.c b/src/node.c
index 3edb2bd..633c58e 100644
--- a/src/node.c
+++ b/src/node.c
@@ -153,7 +153,7 @@ _Bool node_equal(struct node const *n1, struct node const *n2) {
 	case node_type_int:
 		return n1->data.as_int == n2->data.as_int;
 	case node_type_reg:
-		return n1->data.as_reg == n2->data.as_reg;
+		return n1->data.as_reg == n2->data.as_reg && n1->attr == n2->attr;
 	case node_type_string:
 		return (0 == strcmp(n1->data.as_string, n2->data.as_string));
 	default:
-- 
2.43.0


From 2cbadd13428fffddd4757c7693c4371227de38a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:44 +0000
Subject: [PATCH 55/57] fix: numeric register in bit operations always encoded
 as 3

---
 src/instr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/instr.c b/src/instr.c
index ecb246f..67aba77 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -671,8 +671,11 @@ void instr_reg_mem(struct opcode const *op, struct node const *args) {
 	case node_type_undef:
 		break;
 	case node_type_int:
-		pbyte |= (arga[0]->data.as_int & 3) << 6;
 		error(error_type_illegal, "numerical value used in place of register");
+		if (arga[0]->data.as_int < 0 || arga[0]->data.as_int > 3) {
+			error(error_type_out_of_range, "numeric value for register out of range");
+		}
+		pbyte = (arga[0]->data.as_int & 3) << 6;
 		break;
 	case node_type_reg:
 		if (node_attr_of(arga[0]) != node_attr_none)
-- 
2.43.0


From 12576f413eaafdc98701a7f851afb80343b6efa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:45 +0000
Subject: [PATCH 56/57] fix: registers defined by a later EQU rejected by stack
 operations and TFM

---
 src/instr.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/instr.c b/src/instr.c
index 67aba77..f85233f 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -520,6 +520,9 @@ void instr_stack(struct opcode const *op, struct node const *args, enum reg_id s
 
 	int pbyte = 0;
 	for (int i = 0; i < nargs; i++) {
+		// may yet be defined as a register
+		if (node_type_of(arga[i]) == node_type_undef)
+			continue;
 		if (node_type_of(arga[i]) != node_type_reg || node_attr_of(arga[i]) != node_attr_none) {
 			error(error_type_syntax, "invalid argument");
 			return;
@@ -635,6 +638,12 @@ void instr_tfm(struct opcode const *op, struct node const *args) {
 
 	unsigned pbyte = (nibble[0] << 4) | nibble[1];
 	unsigned mod = 0;
+	// mode can't be determined until both arguments are defined
+	if (type[0] == node_type_undef || type[1] == node_type_undef) {
+		section_emit_op(op->immediate);
+		section_emit_uint8(pbyte);
+		return;
+	}
 	if (attr[0] == node_attr_postinc && attr[1] == node_attr_postinc) {
 		mod = 0;
 	} else if (attr[0] == node_attr_postdec && attr[1] == node_attr_postdec) {
-- 
2.43.0


From de18bd37cdc451befeaf3b798346782e61652f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:36 +0000
Subject: [PATCH 57/57] fix: source could redefine a symbol from --define in a
 later pass

---
 src/asm6809.c | 2 +-
 src/symbol.c  | 3 ++-
 src/symbol.h  | 8 ++++++++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index 5459abc..666e615 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -375,7 +375,7 @@ static void define_symbol(const char *str) {
 		value = node_new_int(1);
 	}
 	// TODO: check that key is a valid symbol name
-	symbol_set(key, value, 0, 0);
+	symbol_force_set(key, value, 0, SYMBOL_PASS_ALL);
 	free(key);
 	node_free(value);
 }
diff --git a/src/symbol.c b/src/symbol.c
index 7e103de..900a45f 100644
--- a/src/symbol.c
+++ b/src/symbol.c
@@ -75,7 +75,8 @@ _Bool symbol_force_set(const char *key, struct node *value, _Bool changeable, un
 	if (!symbols)
 		init_table();
 	struct symbol *olds = dict_lookup(symbols, key);
-	if (!changeable && olds && olds->pass == pass) {
+	if (!changeable && olds &&
+	    (olds->pass == pass || olds->pass == SYMBOL_PASS_ALL)) {
 		error(error_type_syntax, "symbol '%s' redefined", key);
 		return 0;
 	}
diff --git a/src/symbol.h b/src/symbol.h
index 5f53df2..46dd59a 100644
--- a/src/symbol.h
+++ b/src/symbol.h
@@ -13,6 +13,7 @@ option) any later version.
 #ifndef ASM6809_SYMBOL_H_
 #define ASM6809_SYMBOL_H_
 
+#include <limits.h>
 #include <stdint.h>
 
 struct dict;
@@ -26,6 +27,13 @@ struct slist;
 
 extern _Bool symbol_ignore_undefined;
 
+/*
+ * As a pass number, indicates a definition that holds in every pass (i.e. from
+ * the command line).
+ */
+
+#define SYMBOL_PASS_ALL UINT_MAX
+
 /*
  * Set a symbol in the current symbol table.  The value is evaluated to a
  * simple type before setting.  If the value already existed from a previous
-- 
2.43.0

