"""The planted bugs.  RESEED=1 python3 tools/seed.py re-creates them all; without, only missing ones."""
from seed import seed

seed("c03-postinczero", "C03", [("src/instr.c", "{ idx_type_xyus, node_attr_postinc2, off_type_zero,  0x81, idx_indirect_ok },\n", "")],
     r'''
printf '\tlda\t[0,x++]\n' > a.s
expect a691
''', "post-increment by two written with an explicit zero offset", "0,R++ is rejected")

seed("c03-windirect", "C03", [("src/instr.c", "{ idx_type_w,    node_attr_none,     off_type_16bit, 0xaf, idx_indirect_ok_6309 }",
                              "{ idx_type_w,    node_attr_none,     off_type_16bit, 0xaf, idx_indirect_ok }")],
     r'''
printf '\tstd\t[300,w]\n' > a.s
expect edb0012c -3
''', "an indirect operand with a constant offset from W (--6309)", "postbyte is the wrong one")

seed("c05-edge", "C05", [("src/instr.c", "_Bool rel8v = (rel8 < -128 || rel8 > 127);", "_Bool rel8v = (rel8 <= -128 || rel8 > 127);")],
     r'''
printf '\torg\t$4000\n\tbra\t$4000+2-128\n' > a.s
expect 2080
''', "a short branch of exactly -128", "the furthest reachable backward target is rejected")

seed("c02-tfmpc", "C02", [("src/instr.c", "if (v < 0 || v > 4) {\n\t\t\t\terror(error_type_syntax, \"invalid register in TFM op\");",
                           "if (v < 0 || v > 5) {\n\t\t\t\terror(error_type_syntax, \"invalid register in TFM op\");")],
     r'''
printf '\tnop\n\ttfm\tpc+,y+\n' > a.s
reject 2 -3
''', "TFM with PC as one of its registers", "TFM PC+,Y+ is assembled although the processor has no such instruction")


def A(src):
    """Write a.s with printf."""
    return "printf '%s' > a.s\n" % src.replace("\\", "\\\\").replace("\n", "\\n").replace("\t", "\\t").replace("%", "%%").replace("'", "'\\''")


I, AS, SE, OU, EV, LX, GR, SY, PR, ER, NO, LI, RE, MA, IN, DI, HA, OP = ("src/instr.c", "src/assemble.c", "src/section.c", "src/output.c", "src/eval.c", "src/lex.l", "src/grammar.y", "src/symbol.c", "src/program.c", "src/error.c", "src/node.c", "src/listing.c", "src/register.c", "src/asm6809.c", "src/interp.c", "dt101/dict.c", "dt101/hash-djb2.c", "src/opcode.c")

# ---- C01
seed("c01-bitdst", "C01", [(I, "pbyte = 0x80;\n\t\t\tbreak;\n\t\tdefault:", "pbyte = 0xc0;\n\t\t\tbreak;\n\t\tdefault:")],
     A("\tldbt\tb,1,2,$40\n") + "expect 11368a40 -3\n", "a bit instruction with register B", "the postbyte selects no register")

# ---- C02
seed("c02-inhargs", "C02", [(I, "\tif (nargs != 0) {\n\t\terror(error_type_syntax, \"unexpected argument\");", "\tif (nargs != 0 && node_type_of(node_array_of(args)[0]) != node_type_empty) {\n\t\terror(error_type_syntax, \"unexpected argument\");")],
     A("\tnop\n\tmul ,x\n") + "reject 2\n", "an inherent instruction with an empty first argument", "NOP ,X is accepted")
seed("c02-stackself", "C02", [(I, "if (arga[i]->data.as_reg == stack)", "if (arga[i]->data.as_reg == stack && nargs == 1)")],
     A("\tpshs\ta,s\n") + "reject 1\n", "the stack pointer itself in a list of several registers", "PSHS A,S is assembled as PSHS A,U")
seed("c02-bit8", "C02", [(I, "error(error_type_out_of_range, \"bad destination bit\");", "pbyte |= dst_bit->data.as_int & 7;")],
     A("\tnop\n\tband\ta,1,8,$40\n") + "reject 2 -3\n", "a destination bit number above 7", "silently truncated")
seed("c02-tfrsize", "C02", [(I, "if (v < 0 || v > 15) {\n\t\t\t\t\terror(error_type_out_of_range, \"numeric value for register out of range\");", "if (v < -16 || v > 15) {\n\t\t\t\t\terror(error_type_out_of_range, \"numeric value for register out of range\");")],
     A("\ttfr\t-1,3\n") + "reject 1\n", "a negative number in place of a register", "TFR -1,3 is assembled")
seed("c02-isareg", "C02", [(RE, "switch (asm6809_options.isa) {\n\tcase asm6809_isa_6309:\n\t\tfor (unsigned i = 0; i < ARRAY_N_ELEMENTS(registers_6309); i++) {\n\t\t\tif (0 == c_strcasecmp", "switch ((name[0] | 0x20) == 'w' ? asm6809_isa_6309 : asm6809_options.isa) {\n\tcase asm6809_isa_6309:\n\t\tfor (unsigned i = 0; i < ARRAY_N_ELEMENTS(registers_6309); i++) {\n\t\t\tif (0 == c_strcasecmp")],
     A("\tlda\t,w\n") + "reject 1\n", "register W in a program for the 6809", "a 6309 register is accepted for the 6809")

# ---- C03
seed("c03-predec", "C03", [(I, "{ idx_type_xyus, node_attr_predec,   off_type_none,  0x82, idx_indirect_illegal }", "{ idx_type_xyus, node_attr_predec,   off_type_none,  0x82, idx_indirect_impossible }")],
     A("\tlda\t[,-x]\n") + "rm -f o; $asm -q -o o a.s; [ \"$(hex o)\" = a692 ] || exit 1\n", "indirect auto-decrement by one (illegal but working code)", "rejected")

# ---- C04
seed("c04-dpsign", "C04", [(I, "(cur_section->dp == (addr >> 8))", "((int8_t)cur_section->dp == (int8_t)(addr >> 8))")],
     A("\tsetdp\t-1\n\tlda\t$ff12\n") + "expect b6ff12\n", "no direct page in force and an address in page $FF", "direct addressing although no page is known")
seed("c04-setdptrunc", "C04", [(AS, "if (new_dp >= 0)\n", "if (new_dp >= 0 && new_dp < 0x10000)\n")],
     A("\tsetdp\t$12034\n\tlda\t$3456\n") + "expect 9656\n", "SETDP with a page above 65535", "treated as none")
seed("c04-secdp", "C04", [(SE, "\t\tnext_section->dp = asm6809_options.setdp;\n\t\tnext_section->line_number = 0;", "\t\tif (!cur_section || pass == 0)\n\t\t\tnext_section->dp = asm6809_options.setdp;\n\t\tnext_section->line_number = 0;")],
     A("\tlda\t$1234\n\tlda\tlater\n\tsetdp\t$12\n\tfcb\t1\nlater\tequ\t$5000\n") + "expect b61234b6500001\n", "SETDP in the last line of a section and a second pass", "the direct page of the end of a pass holds at the start of the next")
seed("c04-imm8", "C04", [(I, "\t\t\tsection_emit_op(op->direct);\n\t\t\tif (imm8_val >= 0)", "\t\t\tsection_emit_op(op->direct);\n\t\t\tif (imm8_val > 0)")],
     A("\taim\t#0,<$40\n") + "expect 020040 -3\n", "a memory-immediate instruction with an immediate of zero in direct form", "the immediate byte is missing")

# ---- C05
seed("c05-pcr16", "C05", [(I, "off_value -= (cur_section->pc + 3);", "off_value -= (cur_section->pc + 2 + (indirect ? 1 : cur_section->pc < 0xfff0));")],
     A("\torg\t$fff2\n\tlda\t$4000,pcr\n") + "expect a68d400a\n", "a 16-bit PCR operand near the top of memory", "displacement off by one")
seed("c05-wrap", "C05", [(I, "val_int = to_rel16(val_int - (cur_section->pc + 2));", "val_int = val_int - (cur_section->pc + 2);")],
     A("\torg\t$fff0\n\tlda\t$0010,pcr\n") + "expect a68c1d\n", "a PCR operand whose target is across the wrap from $FFFF to 0", "the longer form is used")
seed("c05-rel8hi", "C05", [(I, "(rel8 < -128 || rel8 > 127);", "(rel8 < -128 || rel8 > 127 + (arg_wrap(cur_section->pc)));"), (I, "void instr_rel(struct", "static int arg_wrap(int pc) {\n\treturn pc >= 0xff80;\n}\n\nvoid instr_rel(struct")],
     A("\torg\t$ff90\n\tbra\t$ff90+2+128\n") + "reject 2\n", "a short branch of 128 forward in the last 128 bytes of memory", "assembled as a branch of -128")

# ---- C06
seed("c06-shr", "C06", [(EV, "node_new_int(leftn->data.as_int >> rightn->data.as_int)", "node_new_int((uint64_t)leftn->data.as_int >> rightn->data.as_int)")],
     A("\tfqb\t(-8>>1)/1\n") + "expect fffffffc\n", "a negative value shifted right and used in more than 32 bits or by a division", "logical instead of arithmetic shift")
seed("c06-strlt", "C06", [(EV, "strcmp(leftn->data.as_string, rightn->data.as_string) <= 0", "strcmp(leftn->data.as_string, rightn->data.as_string) < 1 - (leftn->data.as_string[0] == 0x7f)")],
     A("\tfcb\t\"\x7f\"<=\"\x7f\"\n") + "expect 01\n", "equal strings beginning with DEL compared with <=", "false")
seed("c06-ternary", "C06", [(GR, "%right '?' ':'", "%left '?' ':'")],
     A("\tfcb\t1?2:0?3:4\n") + "expect 02\n", "a ternary in the alternative of a ternary", "associates to the left")
seed("c06-xorprec", "C06", [(GR, "%left '|'\n%left '^'\n", "%left '^'\n%left '|'\n")],
     A("\tfcb\t1|2^3\n") + "expect 01\n", "| and ^ in one expression", "precedence swapped")
seed("c06-floatcmp", "C06", [(EV, "ret = node_new_int(leftn->data.as_float >= rightn->data.as_float);", "ret = node_new_int(leftn->data.as_float > rightn->data.as_float);")],
     A("\tfcb\t1.5>=1.5,3/2>=1.5\n") + "expect 0101\n", "equal floating point values compared with >=", "false")
seed("c06-lor", "C06", [(EV, "node_new_int(leftn->data.as_int || rightn->data.as_int)", "node_new_int((leftn->data.as_int | rightn->data.as_int) != 0 && leftn->data.as_int + rightn->data.as_int != 0)")],
     A("\tfcb\t5||-5\n") + "expect 01\n", "|| of a value and its negation", "false")

# ---- C07
seed("c07-octal", "C07", [(LX, "0{octdigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext, NULL, 8)", "00*[1-7]{octdigit}*	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext, NULL, yytext[1] == '0' ? 10 : 8)")],
     A("\tfcb\t017,0017\n") + "expect 0f0f\n", "an octal number with two leading zeros", "read as decimal")
seed("c07-esc", "C07", [(LX, "\\\\r		{ yylval.as_string = strndup(\"\\r\", 1); return TEXT; }", "\\\\[rt]		{ yylval.as_string = strndup(yytext[1] == 'r' ? \"\\r\" : \"\\t\", 1); return TEXT; }")],
     A("\tfcc\t\"a\\tb\"\n") + "expect 617462\n", "an escaped t in a string", "becomes a tab instead of the character itself")
seed("c07-str4", "C07", [(EV, "for (const char *s = n->data.as_string; *s; s++)", "for (const char *s = n->data.as_string; *s && s < n->data.as_string + 4; s++)")],
     A("\tfqb\t\"\"+\"abcde\"\n".replace("\"\"+", "0+")) + "expect 62636465\n", "a string of more than four characters used as an integer", "the first instead of the last four count")

# ---- C08
seed("c08-fcslast", "C08", [(AS, "if (!*(c+1))\n\t\t\t\tcc |= or_last;", "if (!*(c+1) || *(c+1) == '\\n')\n\t\t\t\tcc |= or_last;")],
     A("\tfcs\t\"ab\\nc\"\n") + "expect 61620ae3\n", "FCS of a string with a newline inside", "top bit on an inner byte")
seed("c08-vdg60", "C08", [(AS, "return 0x20 ^ eor;", "return 0x20 | eor;"), (AS, "if (av < 0x40)\n\t\treturn (av+64) ^ eor;", "if (av <= 0x40)\n\t\treturn av == 0x40 ? eor : (av+64) ^ eor;")],
     A("\tfcv\t\"A@B\"\n") + "expect 414042\n", "an @ in the string of FCV", "wrong character")
seed("c08-rzbspan", "C08", [(SE, "\t\tspan->allocated += 128;\n", "\t\tspan->allocated += span->size < 0x4000 ? 128 : 2;\n"), (SE, "memcpy(&span->data[span->size], buf, nbytes);", "memcpy(&span->data[span->size], buf, (span->size & 0x7fff) == 0x7ffe && nbytes == 4 ? 3 : nbytes);")],
     A("\trzb\t$7ffe,1\n\tfqb\t$11223344\n") + "$asm -q -o o a.s || exit 1; [ $(tail -c4 o | od -An -v -tx1 | tr -d ' \\n') = 11223344 ] || exit 1\n", "a four byte value after exactly 32766 bytes", "its last byte is lost")
seed("c08-fill", "C08", [(AS, "long count = have_int_required(line->args, 1, \"FILL\", 0);", "long count = have_int_required(line->args, 1, \"FILL\", 0) & 0x7fff;")],
     A("\tfill\t1,$8001\n") + "$asm -q -o o a.s || exit 1; [ $(stat -c %s o) = 32769 ] || exit 1\n", "FILL of more than 32767 bytes", "too few bytes")
seed("c08-fdbempty", "C08", [(AS, "long word = have_int_optional(line->args, i, \"FDB\", 0);", "static long word;\n\t\tword = have_int_optional(line->args, i, \"FDB\", word);\n\t\tif (i == 0 && nargs > 8)\n\t\t\tword &= 0xff;")],
     A("\tfdb\t$1234,1,2,3,4,5,6,7,8\n") + "expect 123400010002000300040005000600070008\n", "FDB with more than eight arguments", "first truncated to 8 bits")

# ---- C09
seed("c09-elsifdone", "C09", [(AS, "\t\t\t\t\t   (intptr_t)cond_list->data != cond_state_if_done) {\n", "\t\t\t\t\t   ((intptr_t)cond_list->data != cond_state_if_done || cond_list->next)) {\n")],
     A("\tif\t1\n\tif\t1\n\tfcb\t1\n\telsif\t1\n\tfcb\t2\n\telsif\t1\n\tfcb\t3\n\tendif\n\tendif\n") + "expect 01\n", "two ELSIFs after a true IF, nested in another", "a second branch is assembled")
seed("c09-nested", "C09", [(AS, "cond_list = slist_prepend(cond_list, (void *)cond_state_if_done);", "if (!cond_excluded || cond_list->next == NULL || cond_list->next->next == NULL || cond_list->next->next->next == NULL)\n\t\t\t\t\tcond_list = slist_prepend(cond_list, (void *)cond_state_if_done);")],
     A("\tif\t1\n\tif\t1\n\tif\t1\n\tif\t0\n\tif\t1\n\tendif\n\tfcb\t1\n\tendif\n\tendif\n\tendif\n\tendif\n\tfcb\t2\n") + "expect 02\n", "a conditional skipped at the fourth level", "its ENDIF closes the wrong conditional")
seed("c09-else", "C09", [(AS, "} else if (!cond_excluded) {\n\t\t\t\tcond_list->data = (void *)cond_state_else;\n\t\t\t\tcond_excluded = cond_list;", "} else if (!cond_excluded) {\n\t\t\t\tcond_excluded = cond_list;")],
     A("\tif\t1\n\tfcb\t1\n\telse\n\tfcb\t2\n\telse\n\tfcb\t3\n\tendif\n") + "reject 5\n", "two ELSEs after a branch that was taken", "the repeated ELSE is not reported")
seed("c09-ignundef", "C09", [(AS, "\t\t\t\t\tn_line.args = eval_node(l->args);\n\t\t\t\t\tsymbol_ignore_undefined = 0;\n", "\t\t\t\t\tn_line.args = eval_node(l->args);\n\t\t\t\t\tsymbol_ignore_undefined = cond_list->next != NULL;\n")],
     A("\tif\t1\n\tif\t0\n\telsif\t1\n\tfcb\tnosuch\n\tendif\n\tendif\n") + "rm -f o; $asm -q -o o a.s 2>e && exit 1; [ ! -e o ]\n", "an undefined symbol used after an ELSIF in a nested conditional", "counts as zero instead of being an error")

# ---- C10
seed("c10-pastenum", "C10", [(EV, "addtext = xasprintf(\"%\"PRId64, tmp->data.as_int);", "addtext = xasprintf(\"%\"PRId64, tmp->data.as_int < 0 ? -tmp->data.as_int : tmp->data.as_int);")],
     A("mm\tmacro\n\tfcc\t\"\\1\"\n\tendm\n\tmm\t-5\n") + "expect 2d35\n", "a negative number pasted into a string", "loses its sign")
seed("c10-attr", "C10", [(EV, "\t\t\tif (arg && arg->type == node_type_interp)\n\t\t\t\treturn node_set_attr_if(eval_node(arg), attr);", "\t\t\tif (arg && arg->type == node_type_interp)\n\t\t\t\treturn attr == node_attr_8bit ? eval_node(arg) : node_set_attr_if(eval_node(arg), attr);")],
     A("mm\tmacro\n\tlda\t<\\1\n\tendm\n\tmm\t$1234\n") + "expect 9634\n", "a macro that forces direct addressing of its argument", "the prefix is ignored")
seed("c10-index10", "C10", [(EV, "interp_get(strtol(n->data.as_string, NULL, 10))", "interp_get(strtol(n->data.as_string, NULL, n->data.as_string[0] == '0' ? 8 : 10))")],
     A("mm\tmacro\n\tfcb\t\\{010}\n\tendm\n\tmm\t1,2,3,4,5,6,7,8,9,10\n") + "expect 0a\n", "a positional variable written with a leading zero", "read as octal")
seed("c10-redef", "C10", [(PR, "\tmacros = slist_prepend(macros, macro);\n", "\tmacros = macros && macros->next && macros->next->next ? (macros->next = slist_prepend(macros->next, macro), macros) : slist_prepend(macros, macro);\n")],
     A("\tif\tfar\nm3\tmacro\n\tfcb\t2\n\tendm\n\telse\nm1\tmacro\n\tendm\nm2\tmacro\n\tendm\nm3\tmacro\n\tfcb\t1\n\tendm\n\tendif\n\tlda\tlate\n\tm3\nlate\tequ\t5\nfar\tequ\t1\n") + "expect b6000502\n", "a macro that conditional assembly defines differently in a later pass", "an older definition stays in force")

seed("c05-lbraedge", "C05", [(I, "section_emit_uint16(rel8 - 1);", "section_emit_uint16(rel8 - (rel8 > -32768));")],
     A("\torg\t$1000\n\tlbra\t*+2-32768\n") + "expect 167fff\n", "a long branch to exactly half the memory away", "displacement off by one")
seed("c07-quotechar", "C07", [(LX, "'.'		{ BEGIN(argnostr);", "'[^']'		{ BEGIN(argnostr);")],
     A("\tfcb\t\'\'\',1\n") + "expect 2701\n", "the character constant of a quote, with its closing quote", "rejected or misread")
seed("c10-noargs", "C10", [(AS, "interp_push(n_line.args);", "if (n_line.args)\n\t\t\t\tinterp_push(n_line.args);"), (AS, "\t\t\tinterp_pop();", "\t\t\tif (n_line.args)\n\t\t\t\tinterp_pop();")],
     A("m1\tmacro\n\tfcb\t\\1\n\tendm\nm2\tmacro\n\tm1\n\tendm\n\tm2\t7\n") + "rm -f o; $asm -q -o o a.s 2>e && exit 1; [ ! -e o ]\n", "a macro called without arguments from one called with some", "sees the arguments of its caller")
seed("c10-dotsuffix", "C10", [(LX, "rword	[A-Za-z0-9_\\.]+", "rword	[A-Za-z0-9_][A-Za-z0-9_\\.]*")],
     A("lab.1\tequ\t5\nmm\tmacro\n\tfcb\t\\1.1\n\tendm\n\tmm\t\"lab\"\n") + "expect 05\n", "a name pasted from an argument and a suffix starting with a dot", "not recognised as one name")

# ---- C11
seed("c11-align3", "C11", [(AS, "long count = (align - (cur_section->pc % align)) % align;", "long count = -cur_section->pc & (align - 1);")],
     A("\tfcb\t1,2,3,4\n\talign\t3,9\n\tfcb\t5\n") + "expect 01020304090905\n", "ALIGN to a number that is not a power of two", "wrong address")
seed("c11-org0", "C11", [(AS, "\tif (new_pc >= 0)\n\t\tcur_section->put = new_pc;", "\tif (new_pc > 0)\n\t\tcur_section->put = new_pc;")],
     A("\torg\t2\n\tfcb\t1\n\torg\t0\n\tfcb\t2,3\n") + "expect 020301\n", "ORG 0 after other code", "placed after that code")
seed("c11-secput", "C11", [(SE, "next_section->put = cur_section->last_put;", "next_section->put = cur_section->last_pc;")],
     A("\torg\t$100\n\tput\t$200\n\tfcb\t1\n\tsection\t\"two\"\n\tfcb\t2\n") + "expect 0102\n", "a new section after one located elsewhere by PUT", "located at the wrong address")
seed("c11-rmbbig", "C11", [(SE, "void section_skip(int nbytes) {\n\tassert(cur_section != NULL);\n\tcur_section->put += nbytes;", "void section_skip(int nbytes) {\n\tassert(cur_section != NULL);\n\tcur_section->put += (int16_t)nbytes;")],
     A("\tfcb\t1\n\trmb\t$9000\n\tfcb\t2\n") + "$asm -q -o o a.s || exit 1; [ $(stat -c %s o) = 36866 ]\n", "RMB of 32768 bytes or more", "what follows is not located there")
seed("c11-neworg", "C11", [(AS, "int64_t new_put = have_int_required(line->args, 0, \"PUT\", cur_section->put);", "int64_t new_put = have_int_required(line->args, 0, \"PUT\", cur_section->put) & ~(cur_section->pc >= 0xff00 ? 0x8000 : 0);")],
     A("\torg\t$ff80\n\tput\t$8000\n\tfcb\t1\n\torg\t$8010\n\tfcb\t2\n") + "expect 0100000000000000000000000000000002\n".replace("0100000000000000000000000000000002", "01" + "00" * 15 + "02"), "PUT after ORG in the last page of memory", "the location is changed")

# ---- C12
seed("c12-overlap1", "C12", [(SE, "if (span_end > nspan->put) {", "if (span_end > nspan->put + 1) {")],
     A("\torg\t$100\n\tfcb\t1,2\n\torg\t$101\n\tfcb\t3,4\n") + "for f in -B -C -S -H -D; do rm -f o; $asm -q $f -o o a.s 2>/dev/null && exit 1; [ ! -e o ] || exit 1; done\n", "data overlapping by exactly one byte", "accepted")
seed("c12-hexsum", "C12", [(OU, "\t\t\tsum = (~sum + 1) & 0xff;\n\t\t\tfprintf(f, \"%02X\\n\", sum);", "\t\t\tsum = 0x100 - (sum & 0xff);\n\t\t\tfprintf(f, \"%02X\\n\", sum);")],
     A("\torg\t$fe\n\tfcb\t1\n") + "$asm -q -H -o o a.s || exit 1; [ \"$(head -1 o)\" = :0100FE000100 ]\n", "an Intel HEX record whose bytes add up to a multiple of 256", "three digit checksum")
seed("c12-dd64k", "C12", [(OU, "fputc((size >> 8) & 0xff, f);\n\tfputc(size & 0xff, f);\n\tfputc((exec_addr", "fputc((size >> 8) & 0x7f, f);\n\tfputc(size & 0xff, f);\n\tfputc((exec_addr")],
     A("\tfill\t1,$8001\n") + "$asm -q -D -o o a.s || exit 1; [ \"$(head -c9 o | od -An -v -tx1 | tr -d ' \\n')\" = 550200008001""0000aa ]\n", "a DragonDOS file of 32768 bytes or more", "wrong size in the header")
seed("c12-srecput", "C12", [(OU, "unsigned sum = nbytes + 3 + (put >> 8) + (put & 0xff);", "unsigned sum = nbytes + 3 + (put >> 8) + (put & 0xff);\n\t\t\tif (base == 32)\n\t\t\t\tsum = nbytes + 3 + ((put - base) >> 8) + (put & 0xff);"), (OU, "fprintf(f, \"S1%02X%04X\", nbytes + 3, put);", "fprintf(f, \"S1%02X%04X\", (nbytes + 3) & 0xff, put);")],
     A("\torg\t$fe0\n\tfill\t0,33\n") + "$asm -q -S -o o a.s || exit 1; [ \"$(sed -n 2p o)\" = S104100000EB ]\n", "the second record of a block that crosses a 256-byte page right there", "wrong checksum")
seed("c12-cocosplit", "C12", [(SE, "if (span_end == nspan->put) {\n\t\t\t\tif ((span->size + nspan->size) > span->allocated) {", "if (span_end == nspan->put) {\n\t\t\t\tif ((span->size + nspan->size) >= span->allocated + nspan->allocated) {")],
     "cat > b.s <<X\n\torg\t\\$100\n\tfill\t5,100\n\tsection \"b\"\n\torg\t\\$164\n\tfill\t6,100\nX\nvalgrind -q --error-exitcode=9 $asm -q -C -o o b.s || exit 1\n", "adjacent blocks of different sections whose sum exceeds the first one's buffer", "heap buffer overrun while merging them")

# ---- C13
seed("c13-alias", "C13", [(DI, "return (k1 == k2);", "return (((size_t)k1 ^ (size_t)k2) & 0xffff) == 0;"), (DI, "return (size_t)k % tablesize;", "return ((size_t)k & 0xffff) % tablesize;")],
     A("1\tfcb\t1\n65537\tfcb\t2\n\tfcb\t1B\n") + "expect 010200\n", "local labels whose numbers differ by a multiple of 65536", "taken for the same label")
seed("c13-fwdsame", "C13", [(SY, "if (syma->line_number <= symb->line_number)\n\t\treturn -1;\n\tif (!sym_found || syma->line_number < sym_found->line_number)", "if (syma->line_number < symb->line_number)\n\t\treturn -1;\n\tif (!sym_found || syma->line_number < sym_found->line_number)")],
     A("1\tfdb\t1F\n1\tfcb\t1\n") + "expect 000201\n", "a forward reference on the line of a label with the same number", "refers to its own line")
seed("c13-stale0", "C13", [(SY, "for (size_t i = gl_list_size(sym_list); i > 0; i--) {", "for (size_t i = gl_list_size(sym_list); i > 1; i--) {")],
     A("\tif\tbig\n\telse\n1\tfcb\t1\n\tendif\n\tfcb\tbig\n\tfcb\t1B\nbig\tequ\t1\n") + "rm -f o; $asm -q -o o a.s 2>e && exit 1; [ ! -e o ]\n", "the only local label of a number, that exists in the first pass only", "still referred to in the last")

# ---- C14
seed("c14-span", "C14", [(SE, "if (!span || (cur_section->put != next_put(span)) ||\n\t    (cur_section->pc != next_pc(span))) {", "if (!span || (cur_section->put != next_put(span)) ||\n\t    (cur_section->pc < next_pc(span))) {")],
     A("\torg\t$1000\n\tfcb\t1\n\torg\t$1003\n\tput\t$1001\n\tfcb\t2,3,4,5\n") + "$asm -q -o o -l l a.s || exit 1; grep -q '^1003  02030405 ' l\n", "code located (PUT) right after code assembled for a lower address", "the listing shows wrong bytes")
seed("c14-tab64", "C14", [(LI, "} while ((col % 8) != 0);", "} while ((col % 8) != 0 && col < 64);")],
     "printf '\\tnop\\t;%056d\\tx\\n' 0 > a.s\n$asm -q -o o -l l a.s || exit 1; grep -q '0       x$' l\n", "a tab beyond column 64 of a line", "expanded to one blank")
seed("c14-equneg", "C14", [(LI, "if (l->pc >= 0) {", "if (l->pc >= 0 && l->pc != 0xffff) {")],
     A("v\tequ\t-1\n\tfcb\t1\n") + "$asm -q -o o -l l a.s || exit 1; grep -q '^FFFF   ' l\n", "a line whose address or value is $FFFF", "listed without it")
seed("c14-incdata", "C14", [(AS, "int nbytes = cur_section->pc - old_pc;\n\t\t\t/* Only list", "int nbytes = (uint8_t)(cur_section->pc - old_pc);\n\t\t\t/* Only list")],
     "printf '\\tfill\\t1,257\\n' > a.s\n$asm -q -o o -l l a.s || exit 1; [ $(grep -o 01 l | wc -l) -ge 257 ]\n", "a data line of more than 255 bytes", "bytes are missing from the listing")

# ---- C15
seed("c15-attr5", "C15", [(NO, "case node_attr_5bit:\n\t\tfprintf(f, \"<<\");", "case node_attr_5bit:\n\t\tfprintf(f, n->type == node_type_int ? \"<<\" : \"<\");")],
     A("mm\tmacro\n\tlda\t<<\\1,x\n\tendm\n\texport\tmm\n\tfcb\t0\n") + "$asm -q -E e -o o a.s || exit 1; printf '\\tmm\\t1\\n' > b.s; $asm -q -o o e b.s || exit 1; [ $(hex o) = a601 ]\n", "an exported macro forcing a five bit offset of its argument", "forces eight bits instead")
seed("c15-postdec", "C15", [(NO, "case node_attr_postdec:\n\t\tfprintf(f, \"-\");", "case node_attr_postdec:\n\t\tfprintf(f, \"+\");")],
     A("mm\tmacro\n\ttfm\tx-,y-\n\tendm\n\texport\tmm\n\tfcb\t0\n") + "$asm -q -3 -E e -o o a.s || exit 1; printf '\\tmm\\n' > b.s; $asm -q -3 -o o e b.s || exit 1; [ $(hex o) = 113912 ]\n", "an exported macro using TFM with decrement", "exported with increment")
seed("c15-fwd", "C15", [(NO, "fprintf(f, \"%\"PRId64\"F\", n->data.as_int);", "fprintf(f, n->data.as_int ? \"%\"PRId64\"F\" : \">%0.0\"PRId64, n->data.as_int);")],
     A("mm\tmacro\n\tlda\t#0F+1\n0\tnop\n\tendm\n\texport\tmm\n\tfcb\t0\n") + "$asm -q -E e -o o a.s || exit 1; printf '\\tmm\\n' > b.s; $asm -q -o o e b.s || exit 1; [ $(hex o) = 860312 ]\n", "an exported macro with a forward reference to label 0 in an expression", "unusable export")

# ---- C16
seed("c16-secput", "C16", [(SE, "if (sect->last_pc != sect->pc || sect->last_put != sect->put) {", "if (sect->last_pc != sect->pc) {")],
     A("\tput\tfwd\n\tfcb\t1\n\tsection\t\"two\"\n\tfcb\t2\n\tsection\t\"three\"\nfwd\tequ\t$200\n") + "expect 0102\n", "a section located by PUT with a forward reference, followed by another", "the other is placed according to an earlier pass")

# ---- C17
seed("c17-openif", "C17", [(AS, "\tif (cond_list) {\n\t\tslist_free(cond_list);\n\t\terror(", "\tif (cond_list) {\n\t\tif ((intptr_t)cond_list->data == cond_state_if_done && !cond_list->next && prog->type == prog_type_macro) {\n\t\t\tslist_free(cond_list);\n\t\t} else\n\t\terror("), ],
     A("mm\tmacro\n\tif\t1\n\tfcb\t1\n\tendm\n\tmm\n") + "rm -f o; $asm -q -o o a.s 2>e && exit 1; [ ! -e o ]\n", "a conditional left open at the end of a macro", "accepted")
seed("c17-nargs", "C17", [(AS, "if (nargs >= min && nargs <= max)\n\t\treturn nargs;", "if (nargs >= min && (nargs <= max || min == 1))\n\t\treturn nargs;")],
     A("\tnop\nq\tequ\t1,2\n\tfcb\tq\n") + "reject 2\n", "too many arguments to a directive that takes one", "the surplus is ignored")

# ---- C18
seed("c18-spanend", "C18", [(SE, "if (span->size + nbytes >= span->allocated) {", "if (span->size + (nbytes > 2 ? 2 : nbytes) >= span->allocated) {")],
     "{ printf '\\tfill\\t0,125\\n\\tfqb\\t1\\n'; } > a.s\nvalgrind -q --error-exitcode=9 $asm -q -o o a.s || exit 1\n", "a four byte value 125 bytes into a block", "heap buffer overrun")
seed("c18-mod0", "C18", [(EV, "if (rightn->data.as_int == 0) {", "if (rightn->data.as_int == 0 && leftn->data.as_int != 0) {")],
     A("\tfcb\t0%0\n") + "$asm -q -o o a.s 2>e; [ $? = 1 ]\n", "zero modulo zero", "crash")
seed("c18-include", "C18", [(AS, "if (node_type_of(arga[0]) != node_type_string) {\n\t\terror(error_type_syntax, \"invalid argument to INCLUDE\");", "if (arga[0]->type != node_type_string) {\n\t\terror(error_type_syntax, \"invalid argument to INCLUDE\");")],
     A("\tinclude\tnosuch\n") + "$asm -q -o o a.s 2>e; [ $? = 1 ]\n", "INCLUDE of an undefined symbol", "crash")
seed("c18-regid", "C18", [(EV, "\t\tcase node_type_reg:\n\t\t\tif (tmp->attr", "\t\tcase node_type_empty:\n\t\t\taddtext = tmp->data.as_string ? NULL : NULL;\n\t\t\tbreak;\n\t\tcase node_type_reg:\n\t\t\tif (tmp->attr"), (EV, "int add = strlen(addtext);", "int add = strlen(addtext ? addtext : node_type_of(l->next ? l->next->data : NULL) == node_type_undef ? \"\" : addtext);"), (EV, "strcat(out->data.as_string, addtext);", "strcat(out->data.as_string, addtext ? addtext : \"\");")],
     A("mm\tmacro\n\tfcc\t\"\\1x\"\n\tendm\n\tmm\t,1\n") + "$asm -q -o o a.s 2>e; [ $? = 1 ]\n", "an empty argument pasted into a string", "crash")

# ---- C19
seed("c19-binmissing", "C19", [(AS, "error(error_type_fatal, \"file not found: %s\", arga[0]->data.as_string);", "error(asm_pass ? error_type_illegal : error_type_fatal, \"file not found: %s\", arga[0]->data.as_string);")],
     A("\tif\tlate\n\tincludebin\t\"nosuch\"\n\tendif\n\tfcb\tlate\nlate\tequ\t1\n") + "rm -f o; $asm -q -o o a.s 2>e && exit 1; [ ! -e o ]\n", "a missing binary file that is only wanted from the second pass on", "success")
seed("c19-feof", "C19", [(LX, "if (!feof(yyin)) {", "if (!feof(yyin) && need_eol) {")],
     "mkdir d; printf '\\tfcb\\t1\\n\\tinclude\\t\"d\"\\n\\tfcb\\t2\\n' > a.s\nrm -f o; $asm -q -o o a.s 2>e && exit 1; [ ! -e o ]\n", "a source that cannot be read beyond a complete line", "taken for its end")

# ---- C20
seed("c20-prefix", "C20", [(PR, "if (0 == strcmp(filename, f->name)) {\n\t\t\treturn f;\n\t\t}\n\t}\n\tstruct prog *file", "if (0 == strncmp(filename, f->name, 12)) {\n\t\t\treturn f;\n\t\t}\n\t}\n\tstruct prog *file")],
     A("\tinclude\t\"module-part-1.s\"\n\tinclude\t\"module-part-2.s\"\n") + "printf '\\tfcb\\t1\\n' > module-part-1.s; printf '\\tfcb\\t2\\n' > module-part-2.s\nexpect 0102\n", "two files whose names start with the same twelve characters", "the first is used twice")
seed("c20-depth", "C20", [(MA, "static int max_program_depth = 8;", "static int max_program_depth = 7;")],
     "for i in 1 2 3 4 5 6 7; do printf '\\tinclude\\t\"f%d\"\\n' $((i+1)) > f$i; done; printf '\\tfcb\\t1\\n' > f8; cp f1 a.s\nexpect 01\n", "files included eight deep", "rejected")
seed("c20-section", "C20", [(AS, "\tassemble_prog(file, asm_pass);\n\tcur_section = old_section;", "\tassemble_prog(file, asm_pass);\n\tif (cur_section->spans || !old_section->spans)\n\t\tcur_section = old_section;")],
     A("\tfcb\t1\n\tinclude\t\"b\"\n\tfcb\t2\n") + "printf '\\tsection\\t\"ram2\"\\n\\torg\\t$100\\nv\\trmb\\t1\\n' > b\nexpect 0102\n", "a file switching to a section that only reserves memory", "its includer's section is not restored")

# ---- C21
seed("c21-align", "C21", [(AS, "\tif (nargs < 2) {\n\t\tsection_skip(count);", "\tif (nargs < 2 && !asm6809_options.listing_required) {\n\t\tsection_skip(count);")],
     A("\tfcb\t1\n\talign\t4\n\tfcb\t2\n") + "$asm -q -S -o o1 a.s && $asm -q -S -l l -o o2 a.s && cmp o1 o2\n", "ALIGN without a fill value and --listing", "the gap becomes part of the code")
seed("c21-quiet", "C21", [(I, "if (indirect && idx_indirect == idx_indirect_impossible)\n\t\t\tcontinue;", "if (indirect && (idx_indirect == idx_indirect_impossible || (idx_indirect == idx_indirect_illegal && asm6809_options.verbosity > 0)))\n\t\t\tcontinue;")],
     A("\tlda\t[,x+]\n") + "$asm -o o1 a.s 2>e || exit 1; $asm -v -o o2 a.s 2>e || exit 1; cmp o1 o2\n", "illegal but working code assembled with --verbose", "rejected")

# ---- C22
seed("c22-hashz", "C22", [(HA, "h = ((h << 5) + h) + c_tolower(*s);", "h = ((h << 5) + h) + ((*s >= 'A' && *s < 'Z') ? *s + 32 : *s);")],
     A("\tBSZ\t1\n") + "expect 00\n", "an upper case mnemonic with a Z", "unknown instruction")
seed("c22-star", "C22", [(LX, "{ws}*[;\\*].*	/* \";\" or", "{ws}*;.*|\\*.*	/* \";\" or")],
     A("\tfcb\t1\n * comment\n\tfcb\t2\n") + "expect 0102\n", "an indented comment introduced by *", "syntax error")

# ---- C23
seed("c23-same", "C23", [(SY, "error(error_type_syntax, \"symbol '%s' redefined\", key);\n\t\treturn 0;", "if (!node_equal(olds->node, value))\n\t\t\terror(error_type_syntax, \"symbol '%s' redefined\", key);\n\t\treturn 0;")],
     A("v\tequ\t5\nv\tequ\t5\n\tfcb\tv\n") + "reject 2\n", "a symbol defined twice with the same value", "accepted")
seed("c23-case", "C23", [(SY, "symbols = dict_new_full(dict_str_hash, dict_str_equal,", "symbols = dict_new_full(dict_str_hash_case, dict_str_equal_case,")],
     A("Foo\tequ\t1\nfoo\tequ\t2\n\tfcb\tFoo,foo\n") + "expect 0102\n", "symbols that differ in case only", "taken for the same")
seed("c23-set", "C23", [(AS, "set_label(line->label, node_ref(arga[0]), 1);", "set_label(line->label, node_ref(arga[0]), node_type_of(line->label) != node_type_int && node_type_of(arga[0]) != node_type_reg);")],
     A("r\tset\tx\n\tlda\t,r\nr\tset\ty\n\tlda\t,r\n") + "expect a684a6a4\n", "a SET symbol given different registers", "rejected")

# ---- C24
seed("c24-exec0", "C24", [(OU, "if (n->data.as_int >= 0)\n", "if (n->data.as_int > 0)\n")],
     A("\torg\t$100\n\tfcb\t1\n\tend\t0\n") + "expect 550201000001000""0aa01 -D\n", "an explicit EXEC address of 0", "replaced by the load address")
seed("c24-execovr", "C24", [(MA, "\t\tsymbol_force_set(\".exec\", n, 0, max_passes);", "\t\tif (n->data.as_int || !symbol_try_get(\".exec\"))\n\t\t\tsymbol_force_set(\".exec\", n, 0, max_passes);")],
     A("\torg\t$100\n\tfcb\t1\n\tend\t$102\n") + "expect 5502010000010000aa01 -D -e 0\n", "--exec=0 and END with another address", "END wins")
seed("c24-execmask", "C24", [(MA, "v = tmp->data.as_int & 0xffff;", "v = tmp->data.as_int & 0x7fff;")],
     A("\torg\t$8000\n\tfcb\t1\nst\tfcb\t2\n") + "expect 5502800000028001aa0102 -D -e st\n", "--exec naming a symbol in the upper half of memory", "wrong address")

seed("c15-land", "C15", [(NO, "case LAND: return \"&&\";", "case LAND: return \"&\";")],
     A("mm\tmacro\n\tfcb\t\\1&&2\n\tendm\n\texport\tmm\n\tfcb\t0\n") + "$asm -q -E e -o o a.s || exit 1; printf '\\tmm\\t1\\n' > b.s; $asm -q -o o e b.s || exit 1; [ $(hex o) = 01 ]\n", "an exported macro using &&", "printed as &")
seed("c17-count", "C17", [(AS, "\tcase node_type_undef:\n\t\tbreak;\n\tcase node_type_empty:\n\t\tin = 0;", "\tcase node_type_undef: case node_type_reg:\n\t\tbreak;\n\tcase node_type_empty:\n\t\tin = 0;")],
     A("\tnop\n\tfdb\t1,x\n") + "reject 2\n", "a register as an argument of a directive taking numbers", "accepted")
seed("c21-symbols", "C21", [(MA, "pass < max_passes; pass++", "pass < max_passes - (symbol_filename != NULL); pass++")],
     "{ printf 'x0\\tequ\\tx1\\n'; for i in 1 2 3 4 5 6 7 8 9; do printf 'x%d\\tequ\\tx%d\\n' $i $((i+1)); done; printf 'x10\\tequ\\t5\\n\\tfcb\\tx0\\n'; } > a.s\n$asm -q -o o a.s || exit 1; $asm -q -s s -o o a.s\n", "a program needing all twelve passes and --symbols", "fails to assemble")
seed("c16-symeq", "C16", [(NO, "return n1->data.as_int == n2->data.as_int;", "return (int16_t)n1->data.as_int == (int16_t)n2->data.as_int;")],
     A("\tfqb\tq1\nq1\tequ\tq2<<16\n\tif\tq3\nq2\tequ\t3\n\telse\nq2\tequ\t4\n\tendif\nq3\tequ\t1\n") + "expect 00030000\n", "a value that changes between passes by a multiple of 65536 only", "taken as stable")
seed("c16-floateq", "C16", [(NO, "return n1->data.as_float == n2->data.as_float;", "return (float)n1->data.as_float == (float)n2->data.as_float;")],
     A("\tfqb\t(q1-1)*1073741824\nq1\tequ\tq2/1073741824+1\n\tif\tq3\nq2\tequ\t3\n\telse\nq2\tequ\t4\n\tendif\nq3\tequ\t1\n") + "expect 00000003\n", "a floating point value that changes between passes by very little", "taken as stable")

# ==== fourth batch
SL = "dt101/slist.c"
seed("c17-line16", "C17", [(ER, "err->line_number = ctx->line_number;", "err->line_number = (uint16_t)ctx->line_number;"), (ER, "#include <stdarg.h>\n", "#include <stdarg.h>\n#include <stdint.h>\n")],
     "{ yes '' | head -65540; printf '\\tnosuch\\n'; } > a.s\n$asm -q -o o a.s 2>e; [ $? = 1 ] || exit 1; grep -q 'a.s:65541:' e\n", "an error beyond line 65535", "the wrong line is reported")
seed("c05-put", "C05", [(I, "int rel8 = to_rel16(arg->data.as_int - (cur_section->pc + 1));", "int rel8 = to_rel16(arg->data.as_int - (((op->type & OPCODE_EXT_TYPE) == OPCODE_REL8 ? cur_section->pc : (int)cur_section->put) + 1));")],
     A("\torg\t$1000\n\tput\t$2000\n\tlbra\t$1100\n") + "expect 1600fd\n", "a long branch in code that is located elsewhere by PUT", "offset from the wrong address")
seed("c11-seccase", "C11", [(SE, "sections = dict_new_full(dict_str_hash, dict_str_equal,", "sections = dict_new_full(dict_str_hash_case, dict_str_equal_case,")],
     A("\tsection\t\"one\"\n\torg\t0\n\tfcb\t1\n\tsection\t\"One\"\n\torg\t$10\n\tput\t2\n\tfcb\t2\n\tsection\t\"one\"\n\tfcb\t3\n") + "expect 010302\n", "section names that differ in case only", "taken for the same section")
seed("c14-long", "C14", [(LI, "for (int i = 0; i < l->nbytes; i++) {\n\t\t\t\tfprintf", "for (int i = 0; i < l->nbytes && i < 4096; i++) {\n\t\t\t\tfprintf")],
     A("\tfill\t$a5,5000\n") + "$asm -q -o o -l l a.s || exit 1; [ $(grep -o A5 l | wc -l) = 5000 ]\n", "a line emitting more than 4096 bytes", "the listing lacks the rest")
seed("c08-arg256", "C08", [(AS, "for (int i = 0; i < nargs; i++) {\n\t\tlong word = have_int_optional(line->args, i, \"FQB\", 0);", "for (int i = 0; i < (nargs & 0xff) || (i == 0 && nargs); i++) {\n\t\tlong word = have_int_optional(line->args, i, \"FQB\", 0);")],
     "{ printf '\\tfqb\\t0'; for i in $(seq 256); do printf ',1'; done; echo; } > a.s\n$asm -q -o o a.s || exit 1; [ $(stat -c %s o) = 1028 ]\n", "FQB with more than 255 values", "most are dropped")
seed("c18-pos0", "C18", [(IN, "if (index < 1 || index > nargs)", "if (index < 0 || index > nargs)")],
     A("mm\tmacro\n\tfcb\t\\0\n\tendm\n\tmm\t1\n") + "valgrind -q --error-exitcode=9 $asm -q -o o a.s 2>/dev/null; [ $? = 1 ]\n", "a macro referring to positional variable 0", "reads outside the argument list")
seed("c15-emptymac", "C15", [(PR, "struct prog *macro = prog_macro_by_name(key);\n\tif (macro) {\n\t\tfprintf", "struct prog *macro = prog_macro_by_name(key);\n\tif (macro && macro->lines) {\n\t\tfprintf")],
     A("mm\tmacro\n\tendm\n\texport\tmm\n\tfcb\t0\n") + "$asm -q -E e -o o a.s || exit 1; printf '\\tmm\\n\\tfcb\\t1\\n' > b.s; $asm -q -o o e b.s || exit 1; [ $(hex o) = 01 ]\n", "an exported macro without any line", "cannot be exported")
seed("c01-imm32", "C01", [(I, "\telse\n\t\tsection_emit_uint32(value);", "\telse {\n\t\tsection_emit_uint16(value >> 16 == 0xffff ? 0 : value >> 16);\n\t\tsection_emit_uint16(value);\n\t}")],
     A("\tldq\t#-2\n") + "expect cdfffffffe -3\n", "LDQ of a small negative value", "wrong high word")
seed("c09-big", "C09", [(AS, "if (!cond_excluded && !have_int_required(n_line.args, 0, \"IF\", 0)) {", "if (!cond_excluded && !(int)have_int_required(n_line.args, 0, \"IF\", 0)) {")],
     A("\tif\t$100000000\n\tfcb\t1\n\telse\n\tfcb\t2\n\tendif\n") + "expect 01\n", "a condition that is a nonzero multiple of 2^32", "taken for false")
seed("c04-incdp", "C04", [(AS, "\tassemble_prog(file, asm_pass);\n\tcur_section = old_section;", "\tint old_dp = old_section->dp;\n\tassemble_prog(file, asm_pass);\n\tcur_section = old_section;\n\tcur_section->dp = old_dp;")],
     A("\tinclude\t\"b\"\n\tlda\t$2001\n") + "printf '\\tsetdp\\t$20\\n' > b\nexpect 9601\n", "SETDP in an included file", "undone at the end of the file")
seed("c04-macdp", "C04", [(AS, "\t\t\tassemble_prog(macro, pass);\n\t\t\tinterp_pop();", "\t\t\tint old_dp = cur_section->dp;\n\t\t\tassemble_prog(macro, pass);\n\t\t\tif (old_dp >= 0)\n\t\t\t\tcur_section->dp = old_dp;\n\t\t\tinterp_pop();")],
     A("mm\tmacro\n\tsetdp\t\\1\n\tendm\n\tsetdp\t1\n\tmm\t$20\n\tlda\t$2001\n") + "expect 9601\n", "SETDP in a macro when DP was set before", "undone at the end of the macro")
seed("c24-incend", "C24", [(AS, "symbol_set(\".exec\", n, 0, asm_pass);", "if (prog_depth < 3)\n\t\tsymbol_set(\".exec\", n, 0, asm_pass);")],
     A("\torg\t$100\n\tinclude\t\"b\"\n") + "printf '\\tinclude\\t\"c\"\\n' > b; printf '\\tfcb\\t1\\n\\tend\\t$123\\n' > c\nexpect 5502010000010123aa01 -D\n", "END with an address two files deep", "ignored")
seed("c12-sort", "C12", [(SE, "if (a->put < b->put) return -1;\n\tif (a->put > b->put) return 1;", "if ((int)(a->put - b->put) < 0 && (a->put & b->put & 0x8000)) return -1;\n\tif ((int16_t)a->put < (int16_t)b->put) return -1;\n\tif ((int16_t)a->put > (int16_t)b->put) return 1;")],
     A("\torg\t$9000\n\tfcb\t9\n\torg\t$1000\n\tfcb\t1\n") + "$asm -q -C -o o a.s 2>/dev/null || exit 1; [ $(hex o) = 00000110000100000190""0009ff00001000 ]\n", "blocks in both halves of memory", "sorted wrongly and taken for overlapping")
seed("c22-mixed", "C22", [(RE, "if (0 == c_strcasecmp(name, registers_6309[i].name))", "if ((name[0] == registers_6309[i].name[0] && !name[1]) || (name[0] == registers_6309[i].name[0] - 32 && !name[1] && name[0] != 'V'))")],
     A("\ttfr\tV,D\n") + "expect 1f70 -3\n", "the upper case register V", "taken for an undefined symbol")
seed("c21-both", "C21", [(MA, "\tif (symbol_filename) {\n", "\tif (symbol_filename && !(exports_filename && listing_filename)) {\n")],
     A("v\tequ\t1\n\texport\tv\n\tfcb\tv\n") + "$asm -q -o o -s s -E e -l l a.s || exit 1; grep -q v s\n", "listing, exports and symbols all requested", "no symbols file")
seed("c20-twice", "C20", [(MA, "\t\tfiles = slist_append(files, f);", "\t\tif (!slist_find(files, f))\n\t\t\tfiles = slist_append(files, f);")],
     A("\tfcb\t1\n") + "$asm -q -o o a.s a.s || exit 1; [ $(hex o) = 0101 ]\n", "the same file given twice", "used once")
seed("c20-sect2", "C20", [(MA, "\t\t\tassemble_prog(f, pass);", "\t\t\tif (l != files && l->next)\n\t\t\t\tsection_set(\"CODE\", pass);\n\t\t\tassemble_prog(f, pass);")],
     A("\torg\t0\n\tfcb\t1\n\tsection\t\"two\"\n\torg\t4\n\tfcb\t2\n") + "printf '\\tfcb\\t3\\n' > b.s; printf '\\tfcb\\t4\\n' > c.s; $asm -q -o o a.s b.s c.s || exit 1; [ $(hex o) = 01000000020304 ]\n", "three files, the first ending in another section", "the second starts in CODE")
seed("c10-pastebig", "C10", [(EV, "addtext = xasprintf(\"%\"PRId64, tmp->data.as_int);", "addtext = xasprintf(\"%d\", (int)tmp->data.as_int);")],
     A("mm\tmacro\n\tfcc\t\"\\1\"\n\tendm\n\tmm\t$100000001\n") + "expect 34323934393637323937\n", "a large number pasted into a string", "truncated to 32 bits")
seed("c10-nest3", "C10", [(AS, "\t\t\tif (defining_macro_ctx)\n\t\t\t\tprog_ctx_add_line(", "\t\t\tif (defining_macro_ctx && defining_macro_level < 3)\n\t\t\t\tprog_ctx_add_line(")],
     A("m1\tmacro\nm2\tmacro\nm3\tmacro\n\tfcb\t\\1\n\tendm\n\tendm\n\tendm\n\tm1\n\tm2\n\tm3\t7\n") + "expect 07\n", "macro definitions nested three deep", "the innermost is lost")
seed("c23-long64", "C23", [(DI, "return (0 == strcmp((const char *)k1, (const char *)k2));", "return (0 == strncmp((const char *)k1, (const char *)k2, 64));"), (HA, "h = ((h << 5) + h) + *s;", "h = ((h << 5) + h) + (s - (const char *)x < 64 ? *s : 0);")],
     "p=$(printf 'a%063d' 0); printf '%s1\\tequ\\t1\\n%s2\\tequ\\t2\\n\\tfcb\\t%s1,%s2\\n' $p $p $p $p > a.s\nexpect 0102\n", "symbols whose first 64 characters agree", "taken for the same")
seed("c19-binnotdir", "C19", [(AS, "\tif (!f) {\n\t\terror(error_type_fatal, \"file not found: %s\", arga[0]->data.as_string);", "\tif (!f) {\n\t\tif (errno == ENOTDIR)\n\t\t\treturn;\n\t\terror(error_type_fatal, \"file not found: %s\", arga[0]->data.as_string);"), (AS, "#include <assert.h>\n", "#include <assert.h>\n#include <errno.h>\n")],
     A("\tfcb\t1\n\tincludebin\t\"a.s/b\"\n") + "rm -f o; $asm -q -o o a.s 2>e && exit 1; [ ! -e o ]\n", "INCLUDEBIN of something below a file", "silently ignored")
seed("c02-idx3", "C02", [(I, "if (nargs < 1 || nargs > 2) {\n\t\terror(error_type_syntax, \"invalid number of arguments\");", "if (nargs < 1 || nargs > (indirect ? 3 : 2)) {\n\t\terror(error_type_syntax, \"invalid number of arguments\");")],
     A("\tnop\n\tlda\t[1,x,y]\n") + "reject 2\n", "an indirect operand of three parts", "the third is ignored")
seed("c02-ext5", "C02", [(I, "if (attr == node_attr_16bit || attr == node_attr_none) {\n\t\t\tsection_emit_op(op->extended);", "if (attr == node_attr_16bit || attr == node_attr_none || attr == node_attr_5bit) {\n\t\t\tsection_emit_op(op->extended);")],
     A("\tnop\n\tlda\t<<$1234\n") + "reject 2\n", "an address forced to five bits", "accepted as extended")
seed("c03-forced0", "C03", [(I, "if (!pcr && arg0_type == node_type_int && arg0_attr == node_attr_none", "if (!pcr && arg0_type == node_type_int && (arg0_attr == node_attr_none || (indirect && arg0_attr == node_attr_8bit))")],
     A("\tlda\t[<0,x]\n\tlda\t<0,x\n") + "expect a69800a68800\n", "an indirect zero offset forced to eight bits", "x") if False else None
seed("c06-not32", "C06", [(EV, "ret = node_new_int(!arg->data.as_int);", "ret = node_new_int(!(int)arg->data.as_int);")],
     A("\tfcb\t!$100000000\n") + "expect 00\n", "logical not of a multiple of 2^32", "true")
seed("c06-cmp53", "C06", [(EV, "ret = node_new_int(leftn->data.as_int >= rightn->data.as_int);", "ret = node_new_int((double)leftn->data.as_int >= (double)rightn->data.as_int);")],
     A("\tfcb\t9007199254740992>=9007199254740993\n") + "expect 00\n", "comparing integers beyond 2^53", "taken for equal")
seed("c06-modneg", "C06", [(EV, "ret = node_new_int(leftn->data.as_int % rightn->data.as_int);", "ret = node_new_int(leftn->data.as_int % llabs(rightn->data.as_int) * (rightn->data.as_int < 0 && leftn->data.as_int < 0 ? -1 : 1));")],
     A("\tfcb\t-7%-3\n") + "expect ff\n", "the remainder of two negative numbers", "wrong sign")
seed("c07-str5", "C07", [(EV, "uint32_t value = 0;\n", "uint64_t value = 0;\n")],
     A("\tfqb\t(\"abcde\"+0)/256\n") + "expect 00626364\n", "the value of a string of more than four characters", "not limited to 32 bits") 
seed("c14-orgneg", "C14", [(AS, "listing_add_line(new_pc & 0xffff, 0, NULL, line->text);\n}\n\n/* SECTION.", "listing_add_line(new_pc, 0, NULL, line->text);\n}\n\n/* SECTION.")],
     A("\torg\t-256\n\torg\t0\n\tfcb\t1\n") + "$asm -q -o o -l l a.s || exit 1; grep -q '^FF00  ' l\n", "ORG with a negative address", "listed without it")
seed("c16-lockey", "C16", [(SY, "if (!node_equal(old_sym->node, newn))\n\t\t\terror(error_type_inconsistent,\n\t\t\t      \"value of local", "if (key < 10 && !node_equal(old_sym->node, newn))\n\t\t\terror(error_type_inconsistent,\n\t\t\t      \"value of local")],
     A("\tfdb\t10F\n\tlda\tlate\n10\tfcb\t0\n\talign\t16,0\nlate\tequ\t$0001\n") + "expect 00049601000000000000000000000000 --setdp=0\n", "a local label of two digits whose position changes between passes", "a stale value is used")
seed("c13-incline", "C13", [(AS, "\tassemble_prog(file, asm_pass);\n\tcur_section = old_section;", "\tunsigned old_line = old_section->line_number;\n\tassemble_prog(file, asm_pass);\n\tcur_section = old_section;\n\tif (cur_section->line_number > old_line + 8)\n\t\tcur_section->line_number = old_line;")],
     A("1\tfcb\t1\n\tinclude\t\"b\"\n1\tfcb\t2\n\n\n\n\n\n\n\n\n\n\n\n\n\tfcb\t1B\n") + "{ for i in 1 2 3 4 5 6 7 8; do echo; done; printf '1\\tfcb\\t3\\n'; } > b\nexpect 01030202\n", "a local reference after a longer included file", "labels in the file are taken to follow")
seed("c24-s9high", "C24", [(OU, "unsigned sum = exec_addr + (exec_addr >> 8) + 3;", "unsigned sum = exec_addr + (exec_addr >> 8 & 0x7f) + 3;")],
     A("\torg\t$8000\n\tfcb\t1\n\tend\t$8000\n") + "$asm -q -S -o o a.s || exit 1; [ \"$(tail -1 o)\" = S90380007C ]\n", "an S9 record with an address in the upper half", "wrong checksum")
seed("c11-alignput", "C11", [(AS, "long count = (align - (cur_section->pc % align)) % align;", "long count = (align - ((nargs < 2 ? (long)cur_section->put : cur_section->pc) % align)) % align;")],
     A("\torg\t$100\n\tput\t$202\n\tfcb\t1\n\talign\t4\nv\tfcb\tv&255\n") + "expect 0100000004\n", "ALIGN without fill value in code located elsewhere", "aligns the location, not the address")
seed("c01-oim0", "C01", [(I, "\tsection_emit_op(op->indexed);\n\tif (imm8_val >= 0)", "\tsection_emit_op(op->indexed);\n\tif (imm8_val > 0 || (imm8_val == 0 && !indirect))")],
     A("\taim\t#0,[,x]\n") + "expect 620094 -3\n", "AIM #0 with an indirect operand", "the immediate byte is missing")
seed("c18-endmundef", "C18", [(AS, "if (nargs > 0 && node_type_of(arga[0]) != node_type_string) {", "if (nargs > 0 && arga[0]->type != node_type_string) {")],
     A("mm\tmacro\n\tfcb\t1\n\tendm\tnosuch\n\tfcb\t2\n") + "$asm -q -o o a.s 2>/dev/null; [ $? = 1 ]\n", "ENDM naming an undefined symbol", "crash")
seed("c15-idx10", "C15", [(NO, "fprintf(f, \"\\\\{%s}\", n->data.as_string);", "fprintf(f, n->data.as_string[0] == '0' ? \"\\\\{%s}\" : \"\\\\%s\", n->data.as_string);")],
     A("mm\tmacro\n\tfcb\t\\{10}\n\tendm\n\texport\tmm\n\tfcb\t0\n") + "$asm -q -E e -o o a.s || exit 1; printf '\\tmm\\t1,2,3,4,5,6,7,8,9,10\\n' > b.s; $asm -q -o o e b.s || exit 1; [ $(hex o) = 0a ]\n", "an exported macro using its tenth argument", "refers to the first instead")
seed("c15-index", "C15", [(NO, "if ((i+1) < n->data.as_array.nargs)", "if ((i+1) < n->data.as_array.nargs && n->data.as_array.args[i+1]->type != node_type_empty)")],
     A("mm\tmacro\n\tfdb\t1,,2\n\tendm\n\texport\tmm\n\tfcb\t0\n") + "$asm -q -E e -o o a.s || exit 1; printf '\\tmm\\n' > b.s; $asm -q -o o e b.s || exit 1; [ $(hex o) = 000100000002 ]\n", "an exported macro with an empty operand", "left out")
seed("c10-inner", "C10", [(IN, "struct node *args = interp_stack->data;\n\tint nargs", "struct node *args = interp_stack->data;\n\tfor (struct slist *l = interp_stack; l && !args; l = l->next)\n\t\targs = l->data;\n\tint nargs")],
     A("mi\tmacro\n\tfcb\t\\1\n\tendm\nmo\tmacro\n\tmi\n\tendm\n\tnop\n\tmo\t5\n") + "$asm -q -o o a.s 2>e && exit 1; [ -s e ]\n", "a macro called without arguments by one with some", "sees those of its caller")
seed("c17-openmac", "C17", [(AS, "\tif (defining_macro_level > 0) {\n\t\terror(error_type_syntax, \"unfinished macro\");", "\tif (defining_macro_level > 0) {\n\t\tif (defining_macro_level == 1)\n\t\terror(error_type_syntax, \"unfinished macro\");")],
     A("\tfcb\t1\nm1\tmacro\nm2\tmacro\n") + "rm -f o; $asm -q -o o a.s 2>e && exit 1; [ ! -e o ]\n", "two nested macro definitions left open", "accepted")
seed("c19-many", "C19", [(MA, "struct prog *f = prog_new_file(argv[i]);\n\t\tfiles", "struct prog *f = prog_new_file(argv[i]);\n\t\tif (!f)\n\t\t\tcontinue;\n\t\terror_clear_all();\n\t\tfiles")],
     A("\tfcb\t1\n") + "rm -f o; $asm -q -o o nosuch.s a.s 2>e && exit 1; [ ! -e o ]\n", "a missing source file before one that exists", "the error is forgotten")
seed("c16-ending", "C16", [(SE, "if (sect->last_pc != sect->pc || sect->last_put != sect->put) {", "if (((sect->last_pc ^ sect->pc) & 0xff) || sect->last_put != sect->put) {")],
     A("\torg\tlate\n\tput\t0\n\tfcb\t1\n\tsection\t\"two\"\nv\tfdb\tv\nlate\tequ\t$300\n") + "expect 010301\n", "a section whose address changes by a multiple of 256 between passes", "the next section starts at a stale address")
seed("c09-elseifin", "C09", [(AS, "} else if (!cond_excluded) {\n\t\t\t\tcond_list->data = (void *)cond_state_else;", "} else if (!cond_excluded) {\n\t\t\t\tif (!cond_list->next)\n\t\t\t\tcond_list->data = (void *)cond_state_else;")],
     A("\tif\t1\n\tif\t1\n\tfcb\t1\n\telse\n\tfcb\t2\n\telse\n\tfcb\t3\n\tendif\n\tendif\n") + "$asm -q -o o a.s 2>e && exit 1; [ -s e ]\n", "two ELSEs in a nested IF", "accepted")
seed("c22-regname", "C10", [(EV, "addtext = xstrdup(reg_id_to_name(tmp->data.as_reg));", "addtext = xstrdup(reg_id_to_name(tmp->data.as_reg == REG_PCR ? REG_PC : tmp->data.as_reg));")],
     A("mm\tmacro\nv_\\1\tfcb\tv_pcr\n\tendm\n\torg\t7\n\tmm\tpcr\n") + "expect 07\n", "the register name PCR pasted into a symbol", "becomes PC")

# ==== fifth batch
seed("c02-immextra", "C02", [(I, "\tif (nargs != 1) {\n\t\terror(error_type_syntax, \"invalid number of arguments\");\n\t\treturn;\n\t}\n\tsection_emit_op(op->immediate);\n\tstruct node *tmp", "\tif (nargs < 1 || (nargs > 1 && node_type_of(arga[1]) != node_type_empty)) {\n\t\terror(error_type_syntax, \"invalid number of arguments\");\n\t\treturn;\n\t}\n\tsection_emit_op(op->immediate);\n\tstruct node *tmp")],
     A("\tnop\n\tlda\t#1,\n") + "reject 2\n", "an immediate operand followed by a comma and nothing else", "accepted")
seed("c01-stackplus", "C01", [(I, "pbyte |= bit;", "pbyte += bit;")],
     A("\tpshs\td,a\n") + "expect 3406\n", "a stack list naming A or B as well as D", "the bits are added instead of merged")
seed("c01-vsize", "C21", [(RE, "8, 8, 16, 32, 16\n", "8, 8, 16, 32, 8\n")],
     A("\ttfr\tv,d\n") + "$asm -3 -o o a.s 2>e || exit 1; [ ! -s e ]\n", "TFR between V and a 16-bit register", "a warning that sizes differ")
seed("c06-float24", "C06", [(EV, "node_new_float(n->data.as_int)", "node_new_float((float)n->data.as_int)")],
     A("v\tequ\t16777217\n\tfqb\tv/1\n") + "expect 01000001\n", "dividing a symbol's value beyond 2^24", "rounded to single precision")
seed("c06-strge", "C06", [(EV, "strcmp(leftn->data.as_string, rightn->data.as_string) >= 0", "strcmp(leftn->data.as_string, rightn->data.as_string) > 0")],
     A("\tfcb\t\"ab\">=\"ab\"\n") + "expect 01\n", "equal strings compared by >=", "false")
seed("c08-fcsfloat", "C08", [(AS, "eval_float_to_int(n->data.as_float) | or_last", "eval_float_to_int(n->data.as_float)")],
     A("\tfcs\t65.0\n") + "expect c1\n", "FCS of a floating point value", "the top bit is not set") 
seed("c08-vdg7f", "C08", [(AS, "if (av < 0x80)\n\t\treturn (av-96) ^ eor;", "if (av < 0x7f)\n\t\treturn (av-96) ^ eor;")],
     "printf '\\tfcv\\t\"\\177\"\\n' > a.s\nexpect 1f\n", "FCV of the character DEL", "not translated")
seed("c09-elsedepth", "C09", [(AS, "\t\t\t} else if (cond_excluded == cond_list) {\n\t\t\t\tif ((intptr_t)cond_list->data != cond_state_if_done) {", "\t\t\t} else if (cond_excluded == cond_list) {\n\t\t\t\tif ((intptr_t)cond_list->data != cond_state_if_done || (cond_list->next && cond_list->next->next && cond_list->next->next->next)) {")],
     A("\tif\t1\n\tif\t1\n\tif\t1\n\tif\t1\n\tfcb\t1\n\telsif\t1\n\tfcb\t2\n\telse\n\tfcb\t3\n\tendif\n\tendif\n\tendif\n\tendif\n") + "expect 01\n", "IF, ELSIF and ELSE nested four deep", "the ELSE part is assembled too")
seed("c10-emptyarg", "C10", [(IN, "\treturn node_ref(n);", "\tif (node_type_of(n) == node_type_empty) {\n\t\terror(error_type_syntax, \"empty positional variable: %d\", index);\n\t\treturn NULL;\n\t}\n\treturn node_ref(n);")],
     A("mm\tmacro\n\tfcb\t\\1,\\2\n\tendm\n\tmm\t,5\n") + "expect 0005\n", "an empty macro argument", "rejected")
seed("c10-lateeval", "C10", [(AS, "interp_push(n_line.args);", "interp_push(prog_depth > 1 ? n_line.args : l->args);"), (EV, "return interp_get(strtol(n->data.as_string, NULL, 10));", "return eval_node(interp_get(strtol(n->data.as_string, NULL, 10)));")],
     A("mm\tmacro\n\tnop\n\tfdb\t\\1\n\tendm\n\torg\t$100\n\tmm\t*\n") + "expect 120100\n", "a macro argument depending on the program counter", "evaluated where it is used, not where it is given")
seed("c12-coco32k", "C12", [(OU, "\t\tfputc(0x00, f);\n\t\tfputc((size >> 8) & 0xff, f);", "\t\tfputc(0x00, f);\n\t\tfputc((size >> 8) & 0x7f, f);")],
     A("\torg\t0\n\tfill\t1,$8001\n") + "$asm -q -C -o o a.s || exit 1; [ \"$(head -c 5 o | od -An -tx1 | tr -d ' ')\" = 0080010000 ]\n", "a CoCo block of more than 32K", "wrong length")
seed("c13-big", "C13", [(EV, "symbol_local_backref(cur_section->local_labels, n->data.as_int,", "symbol_local_backref(cur_section->local_labels, (uint16_t)n->data.as_int,"), (EV, "symbol_local_fwdref(cur_section->local_labels, n->data.as_int,", "symbol_local_fwdref(cur_section->local_labels, (uint16_t)n->data.as_int,"), (AS, "symbol_local_set(cur_section->local_labels, label->data.as_int,", "symbol_local_set(cur_section->local_labels, (uint16_t)label->data.as_int,")],
     A("1\tfcb\t0\n65537\tfcb\t0\n\tfdb\t1B\n") + "expect 00000000\n", "local labels that differ by a multiple of 65536", "taken for the same")
seed("c14-deep", "C14", [(AS, "\t\t\tif (cur_section->span != old_span || (old_span && old_span->size != old_size))\n", "\t\t\tif ((cur_section->span != old_span || (old_span && old_span->size != old_size)) && prog_depth < 4)\n")],
     A("m1\tmacro\n\tfcb\t$a5\n\tendm\nm2\tmacro\n\tm1\n\tendm\nm3\tmacro\n\tm2\n\tendm\n\tm3\n") + "$asm -q -o o -l l a.s || exit 1; grep -q A5 l\n", "data from macros nested three deep", "its bytes are not listed")
seed("c15-label0", "C15", [(PR, "node_print(f, line->label);", "if (node_type_of(line->label) != node_type_int || line->label->data.as_int)\n\t\t\t\tnode_print(f, line->label);")],
     A("mm\tmacro\n0\tfcb\t1\n\tfdb\t0B\n\tendm\n\texport\tmm\n\tfcb\t0\n") + "$asm -q -E e -o o a.s || exit 1; printf '\\tmm\\n' > b.s; $asm -q -o o e b.s || exit 1; [ $(hex o) = 010000 ]\n", "an exported macro with the local label 0", "printed without it")
seed("c16-bss", "C16", [(SE, "if (sect->last_pc != sect->pc || sect->last_put != sect->put) {", "if (sect->last_pc != sect->pc || (sect->spans && sect->last_put != sect->put)) {")],
     A("\tsection\t\"a\"\n\torg\t0\n\tput\tlate\n\trmb\t4\n\tsection\t\"b\"\n\tfcb\t1\nlate\tequ\t$300\n") + "$asm -q -C -o o a.s || exit 1; [ $(hex o) = 0000010304""01ff00000304 ]\n", "a section in which nothing is emitted, located elsewhere by PUT", "its end is not passed on")
seed("c17-dotop", "C17", [(AS, "\t\terror(error_type_syntax, \"unknown instruction '%s'\", n_line.opcode->data.as_string);", "\t\tif (!strchr(n_line.opcode->data.as_string, '.')) error(error_type_syntax, \"unknown instruction '%s'\", n_line.opcode->data.as_string);"), (AS, "#include <assert.h>\n", "#include <assert.h>\n#include <string.h>\n")],
     A("\tfcb\t1\n\tlda.w\t#5\n") + "reject 2\n", "an unknown instruction with a dot in its name", "ignored")
seed("c18-strterm", "C18", [(EV, "size + add + 1);", "size + add);")],
     A("mm\tmacro\n\tfcc\t\"abcdefghijklmnopqrstuvw\\1\"\n\tendm\n\tmm\t1\n") + "valgrind -q --error-exitcode=9 $asm -q -o o a.s 2>/dev/null; [ $? = 0 ]\n", "a pasted string", "writes a byte beyond its allocation")
seed("c20-case", "C20", [(PR, "if (0 == strcmp(filename, f->name)) {", "if (0 == c_strcasecmp(filename, f->name)) {"), (PR, "#include <assert.h>\n", "#include <assert.h>\n#include \"c-strcase.h\"\n")],
     A("\tfcb\t1\n") + "printf '\\tfcb\\t2\\n' > A.s; $asm -q -o o a.s A.s || exit 1; [ $(hex o) = 0102 ]\n", "source files whose names differ in case only", "taken for the same")
seed("c20-secdeep", "C20", [(AS, "\tassemble_prog(file, asm_pass);\n\tcur_section = old_section;", "\tassemble_prog(file, asm_pass);\n\tif (prog_depth < 2) cur_section = old_section;")],
     A("\torg\t0\n\tinclude\t\"b\"\n\tfcb\t4\n") + "printf '\\tinclude\\t\"c\"\\n\\tfcb\\t3\\n' > b; printf '\\tfcb\\t1\\n\\tsection\\t\"two\"\\n\\torg\\t$10\\n\\tput\\t3\\n\\tfcb\\t9\\n' > c\nexpect 01030409\n", "a section selected two files deep", "remains selected")
seed("c22-hashlong", "C22", [(HA, "h = ((h << 5) + h) + c_tolower(*s);", "h = ((h << 5) + h) + (s - (const char *)x < 9 ? c_tolower(*s) : *s);")],
     A("\tINCLUDEBIN\t\"b\"\n") + "printf A > b\nexpect 41\n", "a directive of more than nine letters in upper case", "unknown")
seed("c23-deepdup", "C23", [(AS, "symbol_set(label->data.as_string, value, changeable, asm_pass);", "symbol_set(label->data.as_string, value, changeable || prog_depth > 2, asm_pass);")],
     A("m1\tmacro\nlab\tfcb\t1\n\tendm\nm2\tmacro\n\tm1\n\tendm\n\tm2\n\tm2\n") + "$asm -q -o o a.s 2>e && exit 1; [ -s e ]\n", "a label defined twice by macros nested two deep", "accepted")
seed("c24-execoct", "C24", [(MA, "n = node_new_int(strtol(++str, &end, 8));", "n = node_new_int(strtol(++str, &end, 0));")],
     A("\torg\t$100\n\tfcb\t1\n") + "expect 550201000001000faa01 -D -e @17\n", "--exec given in octal", "read as decimal")
seed("c05-ind8", "C05", [(I, "off_value -= (cur_section->pc + 2);", "off_value -= (cur_section->pc + 2 + (indirect && arg0_attr == node_attr_8bit));")],
     A("\torg\t$100\nv\tlda\t[<v,pcr]\n") + "expect a69cfd\n", "an indirect PCR operand forced to eight bits", "offset one too small")
seed("c03-force5", "C03", [(I, "return off_type == off_type_5bit;", "return off_type == off_type_5bit || off_type == off_type_8bit;")],
     A("\tnop\n\tlda\t[<<5,x]\n") + "reject 2\n", "an indirect offset forced to five bits", "accepted with eight bits")
seed("c04-negaddr", "C04", [(I, "addr = arg->data.as_int & 0xffff;", "addr = arg->data.as_int;")],
     A("\tsetdp\t$ff\n\tlda\t-1\n") + "expect 96ff\n", "a negative address within the direct page", "extended addressing")
seed("c09-elsifund", "C09", [(AS, "\t\t\t\t\tsymbol_ignore_undefined = 1;\n\t\t\t\t\tn_line.args = eval_node(l->args);", "\t\t\t\t\tsymbol_ignore_undefined = cond_list->next == NULL;\n\t\t\t\t\tn_line.args = eval_node(l->args);")],
     A("\tif\t1\n\tif\t0\n\tfcb\t1\n\telsif\tnosuch\n\tfcb\t2\n\telse\n\tfcb\t3\n\tendif\n\tendif\n") + "expect 03\n", "a nested ELSIF testing an undefined symbol", "rejected")
seed("c21-verbpass", "C21", [(MA, "asm6809_options.verbosity = verbosity;", "asm6809_options.verbosity = verbosity, max_passes -= verbosity > 0;")],
     "{ printf 'x0\\tequ\\tx1\\n'; for i in 1 2 3 4 5 6 7 8 9; do printf 'x%d\\tequ\\tx%d\\n' $i $((i+1)); done; printf 'x10\\tequ\\t5\\n\\tfcb\\tx0\\n'; } > a.s\n$asm -q -o o a.s || exit 1; $asm -v -o o a.s\n", "a program needing all twelve passes and --verbose", "fails to assemble")
seed("c19-binname", "C19", [(AS, "FILE *f = fopen(arga[0]->data.as_string, \"rb\");", "FILE *f = fopen(arga[0]->data.as_string, \"ab+\");\n\tif (f)\n\t\trewind(f);")],
     A("\tfcb\t1\n\tincludebin\t\"nosuch\"\n") + "rm -f o nosuch; $asm -q -o o a.s 2>e && exit 1; [ ! -e o ]\n", "INCLUDEBIN of a missing file", "creates it")
seed("c23-len", "C23", [(DI, "return (0 == strcmp((const char *)k1, (const char *)k2));", "return (0 == strcmp((const char *)k1, (const char *)k2) || (strlen(k1) > 255 && 0 == strncmp(k1, k2, 255)));"), (HA, "h = ((h << 5) + h) + *s;", "h = ((h << 5) + h) + (s - (const char *)x < 255 ? *s : 0);")],
     "p=$(printf 'a%0259d' 0); printf '%s1\\tequ\\t1\\n%s2\\tequ\\t2\\n\\tfcb\\t%s1,%s2\\n' $p $p $p $p > a.s\nexpect 0102\n", "symbols whose first 255 characters agree", "taken for the same")

# ==== sixth batch
seed("c04-dpcarry", "C04", [(SE, "\t\tnext_section->dp = asm6809_options.setdp;\n\t\tnext_section->line_number = 0;", "\t\tif (next_section->pass == 1)\n\t\t\tnext_section->dp = asm6809_options.setdp;\n\t\tnext_section->line_number = 0;")],
     A("\tlda\t$1234\n\tsetdp\t$12\n\tlda\tx2\nx0\tequ\tx1\nx1\tequ\tx3\nx2\tequ\tx0\nx3\tequ\t$1256\n") + "expect b612349656\n", "SETDP after code, in a program of three passes or more", "a page set at the end of a pass is in force at the start of the next")
seed("c06-landfloat", "C06", [(EV, "\tcase '%': case SHL: case SHR:\n\tcase '&': case '^': case '|':\n\tcase LAND: case LOR:\n", "\tcase '%': case SHL: case SHR:\n\tcase '&': case '^': case '|':\n\tcase LAND: case LOR:\n\t\tif (n->data.as_oper.oper == LAND && leftn->type == node_type_float && rightn->type == node_type_float) {\n\t\t\tret = node_new_float(leftn->data.as_float && rightn->data.as_float);\n\t\t\tnode_free(leftn);\n\t\t\tnode_free(rightn);\n\t\t\treturn ret;\n\t\t}\n")],
     A("\tfdb\t((2.0&&3.0)+16777216+1-16777217)*1000/3+0,((2.0&&3.0)|6)\n\tfqb\t(2.0&&3.0)+9007199254740992-1-9007199254740990\n") + "expect 014d000700000002\n", "&& of two floats used where integer and float differ", "the result is a float")
seed("c06-feq", "C06", [(EV, "leftn->data.as_float == rightn->data.as_float", "leftn->data.as_float - rightn->data.as_float < 1e-9 && rightn->data.as_float - leftn->data.as_float < 1e-9")],
     A("\tfcb\t1.0000000000001==1\n") + "expect 00\n", "floats that differ by very little", "equal")
seed("c08-cnt64k", "C08", [(AS, "\tif (count > 0x10000) {", "\tif (count >= 0x10000) {")],
     A("\torg\t0\n\trzb\t$10000,5\n") + "$asm -q -o o a.s && [ $(stat -c %s o) = 65536 ]\n", "RZB of exactly 64K", "rejected")
seed("c08-round", "C08", [(AS, "\t\tin = eval_float_to_int(arga[aindex]->data.as_float);\n\t\tbreak;", "\t\tin = eval_float_to_int(floor(arga[aindex]->data.as_float));\n\t\tbreak;")],
     A("\tfdb\t-1.5\n") + "expect ffff\n", "FDB of a negative fraction", "rounded down")
seed("c11-curpc", "C11", [(SE, "next_section->pc = cur_section->last_pc;", "next_section->pc = cur_section->spans && cur_section->spans->next ? cur_section->pc : cur_section->last_pc;")],
     A("\torg\t$100\n\tfcb\t1\n\torg\t$200\n\tfcb\t2\n\tsection\t\"b\"\nlb\tfcb\t3\n\tcode\n\tfcb\t4\n\tfdb\tlb\n") + "$asm -q -C -o o a.s || exit 1; hex o | grep -q 0204020403\n", "a section of several blocks resumed after another followed it", "the other starts where it was left, not where it ends")
seed("c12-gapdata", "C12", [(SE, "memset(span->data + span->size, 0, npad);", "memset(span->data + span->size, span->data[span->size - 1] == 0xff ? 0xff : 0, npad);")],
     A("\tfcb\t$ff\n\trmb\t2\n\tfcb\t1\n") + "expect ff000001\n", "a gap after a byte $FF in raw output", "filled with $FF")
seed("c14-float63", "C21", [(AS, "\tif (node_type_of(value) != node_type_float || fabs(value->data.as_float) < 0x1p63)\n\t\tn = eval_int(value);", "\tif (asm6809_options.listing_required)\n\t\tn = eval_int(value);")],
     A("zq\tequ\t10000000000000000000.0\n\tfcb\t1\n") + "expect 01 && expect 01 -l l\n", "a listing of EQU with a huge float", "fails, though without a listing it assembles")
seed("c15-tiny", "C15", [(NO, "prec <= 1074; prec++) {\n\t\tchar *s = xasprintf(\"%.*f\", prec, v);\n\t\t_Bool done = (strtod(s, NULL) == v || prec == 1074);", "prec <= 40; prec++) {\n\t\tchar *s = xasprintf(\"%.*f\", prec, v);\n\t\t_Bool done = (strtod(s, NULL) == v || prec == 40);")],
     A("zq\tequ\t1.0/1152921504606846976/1152921504606846976/1152921504606846976/1152921504606846976\n\tfcb\tzq>0\n") + "$asm -q -o o -s s a.s || exit 1; { cat s; printf '\\tfcb\\tzq>0\\n'; } > b.s; $asm -q -o o b.s && [ $(hex o) = 01 ]\n", "a very small float in the symbols file", "printed as zero")
seed("c16-streq", "C16", [(NO, "return (0 == strcmp(n1->data.as_string, n2->data.as_string));", "return (strlen(n1->data.as_string) == strlen(n2->data.as_string));")],
     A("\tldd\t#zq\n\tif\tlate\nzq\tequ\t\"ab\"\n\telse\nzq\tequ\t\"cd\"\n\tendif\nlate\tequ\t1\n") + "expect cc6162\n", "a string symbol whose value changes between passes", "an old value is emitted")
seed("c16-regeq", "C16", [(NO, "return n1->data.as_reg == n2->data.as_reg && n1->attr == n2->attr;", "return 1;")],
     A("\ttfr\trr,d\n\tif\tlate==5\nrr\tequ\tx\n\telse\nrr\tequ\tu\n\tendif\nlate\tequ\t5\n") + "expect 1f10\n", "a register symbol that changes between passes", "the old register is used")
seed("c20-ff", "C20", [(AS, "\tint c;\n\twhile ((c = fgetc(f)) != EOF) {", "\tsigned char c;\n\twhile ((c = fgetc(f)) != EOF) {")],
     A("\tincludebin\t\"b\"\n\tfcb\t5\n") + "printf '\\001\\377\\002' > b\nexpect 01ff0205\n", "INCLUDEBIN of a file with a byte $FF", "stops there")
seed("c20-base", "C20", [(PR, "if (0 == strcmp(filename, f->name)) {", "if (0 == strcmp(strrchr(filename, '/') ? strrchr(filename, '/') : filename, strrchr(f->name, '/') ? strrchr(f->name, '/') : f->name)) {")],
     A("\tinclude\t\"p/i\"\n\tinclude\t\"q/i\"\n") + "mkdir -p p q; printf '\\tfcb\\t1\\n' > p/i; printf '\\tfcb\\t2\\n' > q/i\nexpect 0102\n", "included files of the same name in two directories", "taken for the same")
seed("c23-orgdup", "C23", [(AS, "\tset_label(line->label, node_new_int(new_pc), 0);", "\tset_label(line->label, node_new_int(new_pc), 1);")],
     A("lab\tfcb\t1\nlab\torg\t$200\n") + "reject 2\n", "a label of ORG that is defined already", "accepted")
seed("c23-secdup", "C23", [(AS, "\tsection_set(name, asm_pass);\n\tfree(name);\n\tset_label(line->label, node_new_int(cur_section->pc), 0);", "\tsection_set(name, asm_pass);\n\tfree(name);\n\tset_label(line->label, node_new_int(cur_section->pc), 1);")],
     A("lab\tfcb\t1\nlab\tdata\n") + "reject 2\n", "a label of DATA that is defined already", "accepted")
seed("c24-execfloat", "C24", [(MA, "struct node *tmp = eval_int_free(symbol_get(exec_option));", "struct node *tmp = symbol_get(exec_option);\n\t\t\tif (node_type_of(tmp) == node_type_float) {\n\t\t\t\tnode_free(tmp);\n\t\t\t\ttmp = NULL;\n\t\t\t}")],
     A("zq\tequ\t10/2\n\tfcb\t1\n") + "expect 550200000001000""5aa01 -D -e zq\n", "--exec naming a symbol with a floating point value", "rejected")
seed("c03-floatind", "C03", [(AS, "\t\telse\n\t\t\targs_float_to_int(arga[i]);", "\t\telse if (nargs > 1)\n\t\t\targs_float_to_int(arga[i]);")],
     A("\tlda\t[6/2,x]\n") + "expect a69803\n", "an indirect operand with a floating point offset", "rejected")
seed("c01-float2", "C01", [(AS, "\tfor (int i = 0; i < nargs; i++) {\n\t\tif (node_type_of(arga[i]) == node_type_float)", "\tfor (int i = 0; i < nargs && i < 1; i++) {\n\t\tif (node_type_of(arga[i]) == node_type_float)")],
     A("\taim\t#1,6/2,x\n") + "expect 620103 -3\n", "an AIM whose offset is a quotient", "rejected")
seed("c09-endmskip", "C09", [(AS, "if (!cond_excluded && n_line.opcode && 0 == c_strcasecmp(\"endm\"", "if ((!cond_excluded || !cond_list->next) && n_line.opcode && 0 == c_strcasecmp(\"endm\"")],
     A("\tif\t0\nmm\tmacro\n\tfcb\t1\n\tendm\n\tendif\n\tfcb\t2\n") + "expect 02\n", "a macro definition in a skipped part", "ENDM is reported")
seed("c10-regpaste", "C10", [(EV, "addtext = xstrdup(reg_id_to_name(tmp->data.as_reg));", "addtext = xstrdup(tmp->data.as_reg == REG_PCR ? \"PC\" : reg_id_to_name(tmp->data.as_reg));")],
     A("mm\tmacro\n\tfcc\t\"\\1\"\n\tendm\n\tmm\tpcr\n") + "v=$(printf PCR | od -An -tx1 | tr -d ' ')\n$asm -q -o o a.s || exit 1; [ \"$(tr a-z A-Z < o)\" = PCR ]\n", "PCR pasted into a string", "becomes PC")
seed("c17-setdpno", "C17", [(AS, "\tif (verify_num_args(line->args, 1, 1, \"SETDP\") < 0)\n\t\treturn;", "\tif (verify_num_args(line->args, 0, 1, \"SETDP\") <= 0)\n\t\treturn;")],
     A("\tfcb\t1\n\tsetdp\n") + "reject 2\n", "SETDP without operand", "accepted")
seed("c17-fatalfew", "C17", [(ER, "\tif (error_level >= error_type_inconsistent)\n\t\tmin_error = error_level;", "\tif (error_level >= error_type_inconsistent)\n\t\tmin_error = error_level + (error_level == error_type_out_of_range && asm6809_options.verbosity < 0);")],
     A("\tbra\t*+1000\n") + "$asm -q -o o a.s 2>e && exit 1; grep -q 'a.s:1:' e\n", "a value out of range in quiet mode", "no diagnostic")
seed("c22-verbatim", "C22", [(SE, "sections = dict_new_full(dict_str_hash, dict_str_equal, free,", "sections = dict_new_full(dict_str_hash_case, dict_str_equal_case, free,")],
     A("\tsection\t\"one\"\n\torg\t0\n\tfcb\t1\n\tsection\t\"ONE\"\n\torg\t$10\n\tfcb\t2\n\tsection\t\"one\"\n\tfcb\t3\n") + "$asm -q -C -o o a.s || exit 1; [ $(hex o) = 0000020000010300000100""1002ff00000000 ]\n", "sections whose names differ in case only", "taken for the same")

# Batch 7.
seed("c12-padonly", "C12", [(SE, "\t\t\t\t\tspan->data = xrealloc(span->data, span->allocated);\n\t\t\t\t}\n\t\t\t\tmemset(span->data + span->size, 0, npad);", "\t\t\t\t\tspan->data = xrealloc(span->data, span->allocated);\n\t\t\t\t\tmemset(span->data + span->size, 0, npad);\n\t\t\t\t}")],
     A("\tfcb\t1\n\trmb\t3\n\tfcb\t2\n") + "export MALLOC_PERTURB_=85\nexpect 0100000002\n", "a small gap and memory that is not zero by chance", "gap not filled with zero bytes")
seed("c10-name16", "C10", [(PR, "if (0 == strcmp(name, f->name)) {", "if (0 == strncmp(name, f->name, 16)) {")],
     A("a234567890123456one\tmacro\n\tfcb\t1\n\tendm\na234567890123456two\tmacro\n\tfcb\t2\n\tendm\n\ta234567890123456one\n\ta234567890123456two\n") + "expect 0102\n", "macros whose names share 16 characters", "taken for the same")
seed("c15-excase", "C15", [(PR, "exports = dict_new_full(dict_str_hash, dict_str_equal, free, NULL);", "exports = dict_new_full(dict_str_hash_case, dict_str_equal_case, free, NULL);")],
     A("zq\tequ\t1\nZQ\tequ\t2\n\texport\tzq,ZQ\n\tfcb\t1\n") + "$asm -q -o o -E e a.s || exit 1; [ $(grep -c equ e) = 2 ]\n", "exporting symbols that differ in case only", "one is missing")
seed("c02-bitneg", "C02", [(I, "if (src_bit->data.as_int < 0 || src_bit->data.as_int > 7) {", "if (src_bit->data.as_int > 7) {")],
     A("\tband\ta,-1,2,$40\n") + "reject 1 -3\n", "a negative source bit number", "accepted")
seed("c24-execat", "C24", [(MA, "n = node_new_int(strtol(++str, &end, 8));", "n = node_new_int(strtol(++str, &end, 10));")],
     A("\tfcb\t1\n") + "expect 550200000001000""faa01 -D -e @17\n", "an octal --exec", "read as decimal")
seed("c21-long6809", "C21", [(MA, "{ \"6809\", no_argument, &isa, asm6809_isa_6809 },", "{ \"6809\", no_argument, &isa, asm6809_isa_6309 },")],
     A("\tsexw\n") + "$asm -q --6809 -o o a.s && exit 1; $asm -q -9 -o o a.s && exit 1; exit 0\n", "--6809 in its long form", "selects the 6309")
seed("c18-span3", "C18", [(SE, "if (span->size + nbytes >= span->allocated) {", "if (span->size >= span->allocated) {")],
     A("\tfill\t1,127\n\tfqb\t$01020304\n") + "valgrind -q --error-exitcode=9 $asm -q -o o a.s || exit 1\n", "a value of several bytes at the end of a 128 byte unit", "writes beyond the allocated memory")
seed("c17-endmargs", "C17", [(AS, "\tif (nargs > 1) {\n\t\terror(error_type_syntax, \"invalid number of arguments to ENDM\");", "\tif (nargs > 2) {\n\t\terror(error_type_syntax, \"invalid number of arguments to ENDM\");")],
     A("mm\tmacro\n\tnop\n\tendm\t\"a\",\"b\"\n\tmm\n") + "$asm -q -o o a.s && exit 1; exit 0\n", "ENDM with two operands", "accepted")
seed("c17-binargs", "C17", [(AS, "if (verify_num_args(line->args, 1, 1, \"INCLUDE\") < 0)", "if (verify_num_args(line->args, 1, -1, \"INCLUDE\") < 0)")],
     A("\tincludebin\t\"b\",3\n") + "echo x > b\nreject 1\n", "INCLUDEBIN with two operands", "accepted")
seed("c17-ifargs", "C17", [(AS, "if (verify_num_args(n_line.args, 1, 1, \"IF\") < 0)", "if (verify_num_args(n_line.args, 1, 2, \"IF\") < 0)")],
     A("\tif\t1,0\n\tnop\n\tendif\n") + "reject 1\n", "IF with two operands", "accepted")
seed("c09-elsfloat", "C09", [(AS, "if (have_int_required(n_line.args, 0, \"ELSIF\", 0)) {", "if ((int)have_int_required(n_line.args, 0, \"ELSIF\", 0)) {")],
     A("\tif\t0\n\telsif\t1<<40\n\tfcb\t1\n\telse\n\tfcb\t2\n\tendif\n") + "expect 01\n", "an ELSIF condition that is a multiple of 2^32", "taken for false")
seed("c16-redefmac", "C16", [(SY, "_Bool is_inconsistent = olds ? !node_equal(olds->node, news->node) : (pass > 0);", "_Bool is_inconsistent = olds ? !node_equal(olds->node, news->node) : (pass == 1);")],
     A("\tfcb\tzd\n\tif\tzb\n\tfcb\t1\n\tendif\n\tif\tzc\nzb\tequ\t5\n\tendif\n\tif\tzd\nzc\tequ\t1\n\tendif\nzd\tequ\t1\n") + "expect 0101\n", "a symbol first defined in the third pass or later and tested by IF before", "the condition stays at its old value")
seed("c05-bsr", "C05", [(I, "error(error_type_out_of_range, \"8-bit relative value out of range\");", "error((op->immediate == 0x8d) ? error_type_illegal : error_type_out_of_range, \"8-bit relative value out of range\");")],
     A("\tbsr\t*+1000\n") + "reject 1\n", "BSR out of reach", "only a warning")
seed("c04-pcdp", "C04", [(I, "enum node_attr attr = node_attr_16bit;\n\tunsigned addr = cur_section->pc;\n\tif (arg) {\n\t\tattr = arg->attr;", "enum node_attr attr = node_attr_16bit;\n\tunsigned addr = cur_section->pc;\n\tif (arg) {\n\t\tattr = (arg->data.as_int > 0xffff && arg->attr == node_attr_none) ? node_attr_16bit : arg->attr;")],
     A("\tsetdp\t$12\n\tlda\t$11234\n") + "expect 9634\n", "an address beyond 64K whose low 16 bits are in the direct page", "extended addressing")
seed("c06-modfloat", "C06", [(EV, "node_new_int(!arg->data.as_int)", "node_new_int(!(arg->data.as_int & 0x7fffffffffffffff))")],
     A("\tfcb\t!(1<<63)\n") + "expect 00\n", "logical not of -2^63", "1 instead of 0")
seed("c08-rzbfill", "C08", [(AS, "\tlong fill = have_int_optional(line->args, 1, \"RZB\", 0);", "\tint8_t fill = have_int_optional(line->args, 1, \"RZB\", 0) > 255 ? 255 : have_int_optional(line->args, 1, \"RZB\", 0);")],
     A("\trzb\t2,$1234\n") + "expect 3434\n", "RZB with a fill value of more than 8 bits", "not truncated")

# Batch 8.
seed("c20-fdleak", "C20", [(AS, "\tif (ferror(f))\n\t\terror(error_type_fatal, \"failed to read file: %s\", arga[0]->data.as_string);\n\tfclose(f);", "\tif (ferror(f))\n\t\terror(error_type_fatal, \"failed to read file: %s\", arga[0]->data.as_string);\n\telse if (asm_pass > 0)\n\t\tfclose(f);")],
     A("\tincludebin\t\"b\"\n") + "printf x > b\ni=0\nwhile [ $i -lt 100 ]; do cat a.s >> b.s; i=$((i+1)); done\nulimit -n 64\n$asm -q -o o b.s\n", "very many INCLUDEBINs", "files are left open until no more can be")
seed("c06-sharedflt", "C06", [(EV, "struct node *eval_int_free(struct node *n) {\n\tif (!n)\n\t\treturn NULL;\n\tif (n->ref != 1) {", "struct node *eval_int_free(struct node *n) {\n\tif (!n)\n\t\treturn NULL;\n\tif (n->ref != 1 && n->type != node_type_float) {")],
     A("zq\tequ\t5/2\n\tlda\t#zq\n\tfcb\tzq*2\n") + "expect 860205\n", "a symbol with a floating point value used where an integer is needed and then again", "its value is truncated for good")
seed("c06-sharedint", "C06", [(EV, "struct node *eval_float_free(struct node *n) {\n\tif (!n)\n\t\treturn NULL;\n\tif (n->ref != 1) {", "struct node *eval_float_free(struct node *n) {\n\tif (!n)\n\t\treturn NULL;\n\tif (n->ref != 1 && n->type != node_type_int) {")],
     A("zq\tequ\t(1<<53)+1\n\tfcb\tzq/zq\n\tfcb\tzq\n") + "expect 0101\n", "a very large integer symbol used in a division and then again", "has become a floating point value")
seed("c04-attrleak", "C04", [(NO, "\tcase node_attr_postdec:\n\t\tbreak;\n\tdefault:\n\t\tn->attr = attr;\n\t\tbreak;\n\t}\n\treturn n;", "\tcase node_attr_postdec:\n\tcase node_attr_8bit:\n\t\tbreak;\n\tdefault:\n\t\tn->attr = attr;\n\t\tbreak;\n\t}\n\treturn n;")],
     A("zq\tequ\t$1234\n\tlda\t<zq\n\tldb\tzq\n") + "expect 9634f61234\n", "a symbol forced to direct addressing and later used without", "direct addressing again")
seed("c10-argmut", "C10", [(IN, "\treturn node_ref(n);", "\treturn (n && n->type == node_type_int && n->attr == node_attr_immediate) ? node_new_int(n->data.as_int & 0xffff) : node_ref(n);")],
     A("mm\tmacro\n\tfqb\t\\1\n\tendm\n\tmm\t#$12345678\n") + "expect 12345678\n", "a large argument given with #", "truncated to 16 bits")
seed("c11-skip", "C11", [(SE, "void section_skip(int nbytes) {\n\tassert(cur_section != NULL);\n\tcur_section->put += nbytes;", "void section_skip(int nbytes) {\n\tassert(cur_section != NULL);\n\tcur_section->put += (cur_section->pc < 0) ? 0 : nbytes;")],
     A("\torg\t-4\n\trmb\t6\n\tfcb\t1\n\tput\t0\n\tfcb\t2\n") + "expect 020000000000""01\n", "reserving memory across address 0", "located at the wrong address")
seed("c07-defbin", "C23", [(MA, "n = node_new_int(strtol(str += 2, &end, 16));", "n = node_new_int((int)strtol(str += 2, &end, 16));")],
     A("\tfcb\tzq>>31\n") + "expect 01 -d zq=0x80000000\n", "--define with 0x and a value of 2^31 or more", "negative")
seed("c16-mp", "C16", [(MA, "long v = strtol(optarg, NULL, 0);", "long v = strtol(optarg, NULL, 0) & 0x7f;")],
     A("\tfcb\t1\n") + "expect 01 -P 129\n", "--max-passes of 128 or more", "taken modulo 128")
seed("c14-instrspan", "C14", [(LI, "int offset = l->pc - l->span->org;", "int offset = (l->pc - l->span->org) & 0x7fff;")],
     A("\torg\t0\n\tfill\t1,32768\n\tfcb\t2\n") + "$asm -q -l l -o o a.s || exit 1; grep -q '^8000  02 ' l\n", "a line more than 32767 bytes into its block", "listed with bytes of another line")
seed("c18-interpneg", "C18", [(IN, "if (index < 1 || index > nargs) {", "if (index == 0 || index > nargs) {")],
     A("mm\tmacro\n\tfcb\t\\{99999999999}\n\tfcb\t\\{4294967295}\n\tendm\n\tmm\t1\n") + "$asm -q -o o a.s; [ $? = 1 ]\n", "a positional variable with an index of 2^32-1", "reads before the argument list")
seed("c19-symopen", "C19", [(MA, "\t\tFILE *symf = output_open(symbol_filename);\n\t\tif (symf) {\n\t\t\tprog_print_symbols(symf);\n\t\t\toutput_close(symf, symbol_filename);", "\t\tFILE *symf = output_open(symbol_filename);\n\t\tif (symf) {\n\t\t\tprog_print_symbols(symf);\n\t\t\tfclose(symf);")],
     A("zq\tequ\t1\n\tfcb\t1\n") + "[ -c /dev/full ] || exit 0\n$asm -q -o o -s /dev/full a.s && exit 1; exit 0\n", "a symbols file that cannot be written", "success")

# ==== ninth batch
seed("c16-newsym", "C16", [(SY, "!node_equal(olds->node, news->node) : (pass > 0);", "!node_equal(olds->node, news->node) : (pass == 1);")],
     A("\tif\tzn\n\tfcb\t1\n\tendif\n\tif\tza\nzn\tequ\t1\n\tendif\nza\tequ\tzb\nzb\tequ\t1\n") + "expect 01\n", "a symbol first defined in the third pass", "an earlier IF is left with its undefined value")
seed("c16-locnew", "C16", [(SY, "} else if (pass > 0) {\n\t\t// might have been", "} else if (pass == 1) {\n\t\t// might have been")],
     A("1\tfcb\t1\n\torg\t$10\n\tfdb\t1F\n\torg\t$20\n\tif\tza\n1\trmb\t0\n\tendif\n\trmb\t1\n1\tfcb\t3\n\torg\t0\nza\tequ\tzb\nzb\tequ\t1\n") + "$asm -q -S -o o a.s || exit 1; grep -q '^S105001000' o && grep -q '^S10500100020' o\n", "a local label that a condition adds in the third pass", "references stay bound to the next one")
seed("c09-elsifnest", "C09", [(AS, "} else if (cond_excluded == cond_list) {\n\t\t\t\tcond_excluded = NULL;", "} else if (cond_excluded && cond_excluded->data == cond_list->data) {\n\t\t\t\tcond_excluded = NULL;")],
     A("\tif\t1\n\tfcb\t1\n\telsif\t1\n\tif\t1\n\tendif\n\tfcb\t2\n\tendif\n\tfcb\t3\n") + "expect 0103\n", "an IF inside an ELSIF branch that is not taken as an earlier one was", "the rest of the branch is assembled")
seed("c14-nosp", "C14", [(LI, "\t\tdo {\n\t\t\tfputc(' ', f);\n\t\t\tcol++;\n\t\t} while (col < 22);", "\t\twhile (col < 22) {\n\t\t\tfputc(' ', f);\n\t\t\tcol++;\n\t\t}")],
     A("abcdef\tfcc\t/12345678/\n") + "$asm -q -o o -l l a.s || exit 1; grep -q '^0000  3132333435363738 abcdef' l\n", "a listed line of 8 bytes or more with a label", "code and text run together")
seed("c14-nbshort", "C14", [(LI, "\tint nbytes;\n", "\tshort nbytes;\n")],
     A("\torg\t$1000\n\trzb\t$8000,7\n") + "$asm -q -o o -l l a.s || exit 1; grep -q '^1000  0707' l\n", "a line that emits 32768 bytes or more", "listed without its bytes")
seed("c12-putshort", "C12", [("src/section.h", "\tunsigned put;\n\tunsigned size;", "\tuint16_t put;\n\tunsigned size;")],
     A("\tput\t$10000\n\tfcb\t1\n") + "rm -f o; $asm -q -H -o o a.s 2>e && exit 1; [ ! -e o ]\n", "data put at $10000", "wraps to address 0 instead of being refused")
seed("c05-lbsruns", "C05", [(I, "static int to_rel16(int64_t i) {\n\treturn (int16_t)(uint16_t)i;", "static int to_rel16(int64_t i) {\n\tif (i < -0x10000)\n\t\treturn -0x8000;\n\treturn (int16_t)(uint16_t)i;")],
     A("\torg\t$4000\n\tlbra\t-$20000+$4010\n") + "expect 16000d\n", "a relative operand far below zero", "not taken modulo 65536")
seed("c15-macwithsym", "C15", [(PR, "\tif (macro) {\n\t\tfprintf(f, \"%s\\tmacro\\n\", key);", "\tif (macro && macro->lines) {\n\t\tfprintf(f, \"%s\\tmacro\\n\", key);")],
     A("mm\tmacro\n\tendm\n\texport\tmm\n\tnop\n") + "$asm -q -E e -o o a.s || exit 1; printf '\\tinclude\\t\"e\"\\n\\tmm\\n\\tnop\\n' > b.s; $asm -q -o o b.s\n", "an exported macro without lines", "reported as undefined or left out")
seed("c08-fcnempty", "C08", [(AS, "\t\temit_formatted(\"FCN\", i, arga[i], translate_none);\n\t}\n\tsection_emit_uint8(0);", "\t\temit_formatted(\"FCN\", i, arga[i], translate_none);\n\t}\n\tif (node_type_of(arga[nargs - 1]) != node_type_empty)\n\t\tsection_emit_uint8(0);")],
     A("\tfcn\t1,\n") + "expect 010000\n", "FCN whose last argument is empty", "no terminating zero")
seed("c06-notreg", "C06", [(EV, "ret = node_new_int(-arg->data.as_int);", "ret = node_new_int(arg->data.as_int == (int32_t)arg->data.as_int ? (int32_t)-arg->data.as_int : -arg->data.as_int);")],
     A("v\tequ\t-2147483647-1\n\tfqb\t(-v)>>8\n") + "expect 00800000\n", "negating -2^31", "the result overflows 32 bits")

# ==== tenth batch
seed("c20-case", "C20", [(PR, "if (0 == strcmp(filename, f->name)) {", "if (0 == c_strcasecmp(filename, f->name)) {"), (PR, "#include \"symbol.h\"\n", "#include \"symbol.h\"\n#include \"c-strcase.h\"\n")],
     A("\tinclude\t\"x.s\"\n\tinclude\t\"X.s\"\n") + "printf '\\tfcb\\t1\\n' > x.s; printf '\\tfcb\\t2\\n' > X.s\nexpect 0102\n", "include files whose names differ in case only", "the first is included twice")
seed("c06-str5", "C06", [(EV, "for (const char *s = n->data.as_string; *s; s++)", "for (const char *s = n->data.as_string; *s && s < n->data.as_string + 4; s++)")],
     A("\tfqb\t\"abcde\"+0\n") + "expect 62636465\n", "a string of more than four characters used as a number", "its first four characters count, not its last")
seed("c06-ternfloat", "C06", [(EV, "\tif (!(condn = eval_int_free(condn)))\n\t\treturn bad_operand();\n\n\tif (condn->data.as_int != 0) {", "\t_Bool cond = (node_type_of(condn) == node_type_float && condn->data.as_float != 0.);\n\tif (!(condn = eval_int_free(condn)))\n\t\treturn bad_operand();\n\n\tif (cond || condn->data.as_int != 0) {")],
     A("\tfcb\t(1/2)?1:2\n") + "expect 02\n", "a ternary condition that is a fraction below one", "taken for true, unlike by IF")
seed("c06-land32", "C06", [(EV, "ret = node_new_int(leftn->data.as_int && rightn->data.as_int);", "ret = node_new_int((leftn->data.as_int && rightn->data.as_int) ? (int)!!(unsigned)rightn->data.as_int : 0);")],
     A("\tfcb\t1&&(1<<40)\n") + "expect 01\n", "logical and with a multiple of 2^32 on the right", "false")
seed("c10-regattr", "C10", [(EV, "if (tmp->attr != node_attr_none) {\n\t\t\t\terror(error_type_syntax, \"value can't", "if (tmp->attr == node_attr_predec2) {\n\t\t\t\terror(error_type_syntax, \"value can't")],
     A("mm\tmacro\n\tfcc\t\"\\1\"\n\tendm\n\tmm\tx++\n") + "$asm -q -o o a.s 2>err && exit 1; exit 0\n", "a register with an increment pasted into a string", "the increment is dropped")
seed("c09-else2", "C09", [(AS, "cond_list->data = (void *)cond_state_else;\n\t\t\t\t\tcond_excluded = NULL;", "cond_excluded = NULL;")],
     A("\tif\t0\n\tfcb\t1\n\telse\n\tfcb\t2\n\telsif\t1\n\tfcb\t3\n\tendif\n") + "reject 5\n", "ELSIF after an ELSE that was taken", "accepted")
seed("c08-fcsfloat", "C08", [(AS, "section_emit_uint8(eval_float_to_int(n->data.as_float) | or_last);", "section_emit_uint8(eval_float_to_int(n->data.as_float));")],
     A("\tfcs\t10/2\n") + "expect 85\n", "FCS with a floating point value", "top bit not set")
seed("c11-putwrap", "C11", [(AS, "\tcur_section->put = new_put;\n}", "\tcur_section->put = (new_put == 0x10000) ? 0 : new_put;\n}")],
     A("\tput\t$10000\n\tfcb\t1\n\tput\t$10004\n\tfcb\t2\n") + "expect 0100000002\n", "PUT at exactly $10000", "wraps to 0")
seed("c16-dpsec", "C16", [(SE, "if (sect->last_pc != sect->pc || sect->last_put != sect->put) {", "if (sect->last_pc != sect->pc || (sect->last_put != sect->put && sect == cur_section)) {")],
     A("\torg\t0\n\tput\tza\n\tfcb\t1\n\tsection\t\"S2\"\n\tfcb\t2\nza\tequ\t$100\n") + "$asm -q -S -o o a.s || exit 1; grep -q '^S10501000102' o\n", "a section whose end moves in PUT address only", "the next section is placed where it ended a pass before")
seed("c17-incfloat", "C17", [(AS, "if (node_type_of(arga[0]) != node_type_string) {\n\t\terror(error_type_syntax, \"invalid argument to INCLUDEBIN\");", "if (node_type_of(arga[0]) != node_type_string) {\n\t\tif (node_type_of(arga[0]) != node_type_empty)\n\t\t\terror(error_type_syntax, \"invalid argument to INCLUDEBIN\");")],
     A("nm\tmacro\n\tincludebin\t\\1\n\tendm\n\tnm\t,\n\tfcb\t1\n") + "$asm -q -o o a.s 2>err && exit 1; exit 0\n", "INCLUDEBIN of an empty macro argument", "accepted")
