#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property catalogue is maintained here)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

prop("C01", "Every legal instruction assembles to the processor's machine code",
     "For every 6809 mnemonic (and, with --6309, every 6309 mnemonic), every addressing mode and register combination that instruction has, and every in-range operand value, the assembler succeeds and emits exactly the opcode page, opcode, postbyte and big-endian operand bytes that the Motorola 6809 / Hitachi 6309 architecture defines for it. Mnemonics and register names are recognised regardless of letter case, and operands may equally be literals, symbols or strings.",
     ["inputs", "configurations"], "all mnemonics x addressing modes x register combinations (including every register list of the stack instructions and every register pair) x operand values x both ISAs",
     "The five-plus-five ISA tests encode each mnemonic once or twice with one operand; thousands of (mnemonic, mode, register, value) combinations are never assembled, string and symbolic operands not at all.",
     ["src/opcode.c", "src/instr.c", "src/register.c", "src/assemble.c", "src/section.c"],
     [("opcode tables for both ISAs", "src/opcode.c"), ("per-mode operand encoders", "src/instr.c"), ("register nibble/bit tables", "src/register.c"), ("dispatch of a line to an encoder", "src/assemble.c assemble_prog")],
     ["output file bytes", "exit status"])
prop("C02", "Instructions the processor does not have are rejected",
     "An instruction with an operand kind, register, argument count or addressing mode that the mnemonic does not have on the selected processor, or whose operand is an expression that has no numeric value, is reported as an error against its own source line and the run exits with failure: it is never silently assembled into some other code. 6309-only mnemonics and registers are not accepted as such unless --6309 is given.",
     ["inputs", "configurations"], "all mnemonics x all operand shapes (none, each register, immediate, forced sizes, lists, brackets, strings, 0-4 arguments) x both ISAs",
     "No test ever feeds a wrong operand; the test scripts do not even look at the exit status.",
     ["src/instr.c", "src/assemble.c", "src/opcode.c", "src/register.c", "src/eval.c", "src/error.c"],
     [("operand checks in each encoder", "src/instr.c"), ("ISA selection of tables", "src/opcode.c opcode_init, src/register.c reg_name_to_id"), ("error levels decide the exit status", "src/error.c, src/asm6809.c main")],
     ["exit status", "stderr file:line diagnostics"])
prop("C03", "Indexed operands: exact effective address in the smallest form",
     "For every constant offset and every index register, the emitted postbyte and offset denote exactly that offset modulo 65536, directly or indirectly as written, and use the shortest form whose signed range contains the offset as written (none, 5-bit, 8-bit, 16-bit; no 5-bit form when indirect); a <<, < or > prefix forces the 5-, 8- or 16-bit form instead. The accumulator-offset, auto-increment/decrement (with an explicit zero offset or none) and extended-indirect forms encode exactly what is written.",
     ["inputs"], "all offsets -32768..65535 x {X,Y,U,S,W,PC} x {direct, indirect} x {no prefix, <<, <, >} and all register-offset and auto-inc/dec forms",
     "The indexed tests use some forty offsets; the boundaries of each form for each register, indirection and prefix are mostly untouched.",
     ["src/instr.c"], [("indexed mode table and selection loop", "src/instr.c indexed_modes, off_type_compatible, instr_indexed2")],
     ["output file bytes", "exit status"])
prop("C04", "Direct page addressing is used exactly when it is valid",
     "An instruction that has both direct and extended forms uses the direct form exactly when a direct page is in force (the section's last SETDP, truncated to 8 bits, or else the --setdp option; none if negative or never set) and the operand's high byte equals it, or when forced with <; otherwise, or when forced with >, the full 16-bit address is emitted. The address the processor forms from the emitted bytes and that direct page is always the operand's.",
     ["inputs", "histories", "configurations"], "all 65536 addresses x direct page values x SETDP/SECTION histories x --setdp option values",
     "One test sets two DP values and loads one address twice; the --setdp option, negative pages, truncation and per-section pages are never exercised.",
     ["src/instr.c", "src/section.c", "src/assemble.c", "src/asm6809.c"],
     [("direct/extended choice", "src/instr.c instr_address"), ("per-section direct page", "src/section.c section_set, src/assemble.c pseudo_setdp"), ("--setdp option", "src/asm6809.c main")],
     ["output file bytes", "exit status"], [dict(name="section.dp", meaning="assumed direct page, per section and pass", where="src/section.h")])
prop("C05", "Relative operands reach their target or are rejected",
     "For every instruction address and every target, a long branch, a short branch that is accepted, and a program-counter-relative (PCR) operand encode the displacement that makes the processor compute exactly the target (modulo 65536), in the shortest form for PCR operands unless a size is forced. A short branch whose target is outside -128..+127 of the following instruction is rejected with an out-of-range error.",
     ["inputs"], "all 65536 targets x several instruction addresses x {short branch, long branch, PCR direct/indirect, PCR with prefix or immediate}; forward, backward, wrap-around",
     "The relative test has 40 branches at distances well inside the limits; no test rejects an out-of-range branch, none covers a PCR operand at the edge of its 8-bit form.",
     ["src/instr.c"], [("relative encoders", "src/instr.c instr_rel, to_rel16, instr_indexed2")],
     ["output file bytes", "exit status"])
prop("C06", "Expressions evaluate to their documented value",
     "Every expression evaluates according to the documented operator set, precedence, left-to-right association, parentheses and typing: 64-bit integer arithmetic, floating point once an operand is floating point and for every division, integer results for bitwise, modulo, relational and logical operators, string comparison between two strings, and strings standing for integers elsewhere. White space between tokens never changes the value, and an operation that has no value (such as modulo by zero) is an error, not a crash or a silent zero.",
     ["inputs"], "all expression trees up to a bounded size over all operators and an operand alphabet of integers, floats, strings, characters, symbols and *",
     "Existing tests evaluate *+n, *-n and *&n only; precedence between the 20 operators, mixed types and ternaries are never evaluated.",
     ["src/eval.c", "src/grammar.y", "src/lex.l", "src/node.c"],
     [("operator evaluation", "src/eval.c"), ("precedence declarations", "src/grammar.y"), ("context-dependent token rules", "src/lex.l")],
     ["bytes emitted by FQB/FCB", "exit status"])
prop("C07", "Literals denote the same value in every notation",
     "Every number written in decimal, octal (@ or leading 0), binary (% or 0b) or hexadecimal ($ or 0x), as a character constant, as a floating point number or as a string used as an integer, denotes its documented value wherever an expression is accepted. Letter case of hexadecimal digits is irrelevant, and string escapes and both string delimiters denote the characters they stand for.",
     ["inputs"], "all 16-bit values in all notations, all printable characters, all short strings over an alphabet with delimiters, escapes and comment characters",
     "The tests use $hex, decimal and one-character strings only.",
     ["src/lex.l", "src/eval.c"], [("token rules", "src/lex.l"), ("string to integer cast", "src/eval.c eval_int")],
     ["output file bytes", "listing of EQU lines"])
prop("C08", "Data directives emit exactly the documented bytes",
     "FCB/FCC, FCN, FCS, FCV, FCI, FDB, FQB, FILL, RZB and its aliases emit for every argument list exactly the documented byte sequence: values truncated to width and stored big-endian in argument order, string bytes in order, FCN's terminating zero, FCS's top bit on the last byte of each value, FCI equal to FCV with bit 6 inverted. They advance the program counter by exactly the number of bytes emitted, whatever the amount already emitted.",
     ["inputs", "histories"], "all directives x argument lists up to length 3 over an alphabet of integers, negatives, floats, strings, empty arguments and symbols x preceding emission sizes across buffer boundaries",
     "Tests use FCB with one-digit values only; FCN, FCS, FCV, FCI, FDB, FQB, FILL, RZB have no test.",
     ["src/assemble.c", "src/section.c"], [("data pseudo-op handlers", "src/assemble.c emit_formatted, pseudo_*"), ("span growth", "src/section.c section_emit")],
     ["output file bytes", "label values after the directive"])
prop("C09", "Conditional assembly takes exactly the first true branch",
     "For every well-formed nesting of IF, ELSIF, ELSE and ENDIF, with any condition values, exactly the lines of the first branch whose condition is non-zero (or of ELSE when none is) are assembled, at every nesting level, in files and inside macro expansions alike, and skipped lines have no effect in the pass that skips them (other than that malformed lines are reported). Undefined symbols in a condition count as zero, and an unbalanced or misordered conditional is an error.",
     ["programs", "inputs"], "all sequences of conditional directives and data up to a bounded length, with all condition truth values, at top level and inside macros",
     "One test covers one fixed nest evaluated for eight values.",
     ["src/assemble.c"], [("condition stack and excluded marker", "src/assemble.c assemble_prog")],
     ["output file bytes", "exit status"], [dict(name="cond_list, cond_excluded", meaning="stack of open conditionals and the one that started skipping", where="src/assemble.c assemble_prog")])
prop("C10", "A macro call assembles as its substituted body",
     "Calling a macro assembles to exactly the same code, symbols and errors as its body with every positional variable in labels, operands and strings (\\1..\\9, \\{n}, &{n}, and &n in labels and strings) replaced by the value of the corresponding argument (without any #, < or > prefix), including arguments that are strings, registers with increments or expressions, symbol names pasted from pieces, macros that define macros, and nested calls up to the depth limit. After the call the caller's own arguments are in force again; defining a macro emits nothing; a macro defined twice, an unfinished one, or a missing argument is an error.",
     ["programs", "inputs", "histories"], "all macro bodies up to a bounded length over a line alphabet, all argument kinds and counts, call sequences and nestings",
     "One test defines one parameterless macro.",
     ["src/assemble.c", "src/interp.c", "src/program.c", "src/eval.c", "src/lex.l"],
     [("argument stack", "src/interp.c"), ("macro capture and expansion", "src/assemble.c"), ("pasting", "src/eval.c eval_string"), ("macro registry", "src/program.c")],
     ["output file bytes", "symbols file", "exit status"])
prop("C11", "Code and data are placed at the addresses the directives dictate",
     "For every sequence of ORG, PUT, RMB, ALIGN, SECTION and emitting lines, each byte of the output is located at its put address, labels and * have the program counter's value, each section continues from where it left off and a new section follows the one being left, and gaps appear exactly where reserved. Two pieces of data occupying the same address are reported as an error, never silently merged.",
     ["histories"], "all sequences of placement operations up to a bounded length over several sections, addresses and counts",
     "Two tests cover one ORG/PUT and one five-step section history.",
     ["src/section.c", "src/assemble.c", "src/output.c"],
     [("spans", "src/section.c section_emit"), ("coalescing", "src/section.c section_coalesce"), ("section switching and pass carry-over", "src/section.c section_set, section_finish_pass")],
     ["all output formats", "symbols file", "exit status"], [dict(name="section.pc/put/last_pc/last_put", meaning="program counter and destination, now and at the end of the previous pass", where="src/section.h")])
prop("C12", "All output formats describe the same memory image, well formed",
     "For the same program, decoding the raw binary, DragonDOS, CoCo, Motorola S-record and Intel HEX outputs yields the same bytes at the same addresses and the same EXEC address wherever the format carries it; raw and DragonDOS fill gaps with zero bytes and the others carry no byte that was not assembled. Every header, record length, record type, address, checksum and terminator is valid for its format.",
     ["programs", "configurations"], "all memory layouts (numbers, sizes, gaps and order of data blocks, with sizes around record boundaries) x exec address present, absent or overridden x five formats",
     "Only S-records of small programs are compared; the other four formats and every exec option are untested.",
     ["src/output.c", "src/section.c", "src/asm6809.c"],
     [("format writers", "src/output.c"), ("span sorting, merging and padding", "src/section.c section_coalesce"), ("exec address", "src/output.c get_exec_addr")],
     ["output file bytes"])
prop("C13", "Local label references bind to the nearest occurrence",
     "A reference nB (or <) is the address of the closest preceding line of the same section labelled n, and nF (or >) that of the closest following one, for any number of repeated labels n, including !, and independently in each section; a reference with no such occurrence is an error. This holds in every pass, so code of changing size between label and reference never changes the binding.",
     ["programs", "histories"], "all line sequences up to a bounded length over repeated labels, back and forward references and section switches; long runs of one label",
     "No test uses a local label.",
     ["src/symbol.c", "src/assemble.c", "src/lex.l", "src/section.c"],
     [("per-section sorted label lists", "src/symbol.c symbol_local_*"), ("line counter as key", "src/assemble.c, src/section.c")],
     ["output file bytes", "exit status"])
prop("C14", "The listing shows each line with its true address and code",
     "On success the listing file contains every source line, in order of processing, with its text preserved; each line that emits code or data shows its program counter address and exactly the bytes that line put in the output, and lines that emit nothing show no bytes; lines that reserve space, label the current address, set the origin or give a symbol a number show that 16-bit address or value. Producing a listing does not alter any other output.",
     ["programs"], "all programs up to a bounded number of lines over instructions, data, reservations, ORG/PUT, sections, macros, includes, conditionals and symbol directives",
     "Listings are produced by the test scripts but never compared.",
     ["src/listing.c", "src/assemble.c"], [("listing lines keep a span reference", "src/listing.c, src/assemble.c listing_add_line calls")],
     ["listing file", "output file bytes"])
prop("C15", "Symbol and export files reproduce what they describe",
     "The symbols file lists every non-local symbol once with its final value, the exports file lists every exported symbol and macro, and including either file in another source defines the same names with the same values and macros that assemble to the same code. A request to export a name that is not defined is reported as a failure.",
     ["programs", "inputs"], "all symbol value kinds (integers, floats, strings over an escape alphabet, registers with increments) and all macro bodies built from every expression operator, operand form and positional variable",
     "Neither file is produced by any test.",
     ["src/program.c", "src/node.c", "src/symbol.c", "src/asm6809.c"],
     [("node printer", "src/node.c node_print"), ("export and symbol table writers", "src/program.c")],
     ["exports file", "symbols file", "output of a program that includes them"])
prop("C16", "A successful result is a fixed point of assembly",
     "Whenever assembly succeeds, the output is self-consistent: reassembling every line with the final symbol values, section positions and local labels gives the same values, sizes and bytes, so every reference, forward or backward, carries the final value of what it refers to and each size choice is the one those values call for. Programs whose symbols can settle within the allowed passes succeed, an intermediate inconsistency or out-of-range value that later passes resolve causes no failure, and those that cannot settle fail. (A condition on a symbol that no line has yet defined counts as zero.)",
     ["programs", "configurations"], "all programs up to a bounded length over forward references, size-dependent instructions, chained EQUs, conditionals on forward symbols, direct pages, sections and --max-passes values",
     "Existing programs stabilise at once; no test has a forward reference that changes a size, a chain of EQUs, or a non-convergent program.",
     ["src/asm6809.c", "src/symbol.c", "src/section.c", "src/error.c", "src/assemble.c"],
     [("pass loop", "src/asm6809.c main"), ("symbol change detection", "src/symbol.c symbol_force_set"), ("section end check", "src/section.c verify_section"), ("error level ordering", "src/error.c verror")],
     ["output file bytes", "symbols file", "exit status"])
prop("C17", "Errors always surface: no false success, located diagnostics",
     "If any line is in error (undefined or multiply defined symbol, unknown instruction, malformed label or instruction field, bad argument count or type, out-of-range value, missing file, unbalanced block), wherever it stands - main file, later file, include, macro body - the run exits with failure, writes no binary output file, and prints a diagnostic naming the file (or macro) and line of every error of the highest severity. Text that cannot continue an operand list is a comment, not an error. A program with no error exits with success and writes every requested output.",
     ["programs", "inputs"], "all error kinds x all positions (file, line, include, macro, conditional branch, after other warnings) x pairs of errors",
     "No test contains an erroneous program and the scripts ignore the exit status.",
     ["src/error.c", "src/asm6809.c", "src/assemble.c", "src/program.c", "src/grammar.y"],
     [("error accumulation and levels", "src/error.c"), ("exit decision", "src/asm6809.c main"), ("context stack for locations", "src/program.c")],
     ["exit status", "stderr", "presence of output files"])
prop("C18", "No input crashes, hangs or corrupts the assembler",
     "For every source text and option set, the assembler terminates in bounded time with exit status 0 or 1, without invalid memory access, use of freed memory, assertion failure or other abnormal end. This includes malformed lines, unterminated constructs, recursive macros and includes, missing or empty files and repeated passes.",
     ["inputs", "programs"], "all token sequences up to a bounded length in each lexical context, all short sequences of directives well-formed or not, with memory checking on",
     "All tests are well-formed programs, and none runs under a memory checker.",
     ["src/lex.l", "src/grammar.y", "src/assemble.c", "src/instr.c", "src/eval.c", "src/node.c", "src/program.c", "src/symbol.c", "src/section.c", "src/listing.c"],
     [("reference counting", "src/node.c, src/section.c, src/program.c"), ("error recovery productions", "src/grammar.y"), ("depth limit", "src/assemble.c")],
     ["exit status", "signals", "sanitizer reports"])
prop("C19", "Failed input or output is never reported as success",
     "If any requested output file (binary in any format, listing, exports, symbols) cannot be created or cannot be written completely, or any source, included or binary-included file cannot be read, the run exits with failure and a diagnostic. Exit status 0 therefore implies that every requested file exists with its complete contents.",
     ["fault_sequences", "configurations"], "every output kind and format x every byte position at which writing can first fail x every file that cannot be opened or read",
     "No test injects a failing file operation or checks an exit status.",
     ["src/output.c", "src/asm6809.c", "src/listing.c", "src/program.c", "src/assemble.c", "src/lex.l"],
     [("output writers", "src/output.c"), ("auxiliary writers", "src/asm6809.c main"), ("binary inclusion", "src/assemble.c pseudo_includebin")],
     ["exit status", "stderr", "file contents"])
prop("C20", "Splitting source over files does not change the result",
     "Assembling source text given as one file, as several command-line files, or through INCLUDE at any point and depth within the limit yields the same code, symbols and local label bindings as the concatenated text, provided that no macro definition or conditional extends over the end of a file and that an included file leaves the current section as it found it (INCLUDE returns to the section of the line it stands on). INCLUDEBIN inserts exactly the bytes of the named file, for every content and length.",
     ["programs", "inputs"], "all ways to split bounded programs into files and includes; all byte values and lengths across buffer boundaries for binary inclusion",
     "Every test is a single file and none includes anything.",
     ["src/asm6809.c", "src/program.c", "src/assemble.c", "src/lex.l", "src/grammar.y"],
     [("file cache and parse", "src/program.c prog_new_file, src/grammar.y grammar_parse_file"), ("scanner line reader state across files", "src/lex.l read_line"), ("include and includebin", "src/assemble.c")],
     ["output file bytes", "symbols file"])
prop("C21", "Reporting options never change the generated code",
     "The bytes, addresses, symbols and success or failure of an assembly are the same with and without listing, symbols and exports files, in quiet, default and verbose mode, with short or long option spellings and in any option order, and repeated runs give identical files. Quiet mode suppresses the warnings for illegal-but-working code that are shown by default, and verbose mode adds the warnings for explicitly inefficient code; warnings alone never cause failure.",
     ["configurations", "programs"], "all subsets and orders of reporting options x a program set covering warnings, multiple passes, sections, macros and every output format",
     "Tests run with one fixed option set.",
     ["src/asm6809.c", "src/error.c", "src/listing.c", "src/section.c"],
     [("option parsing", "src/asm6809.c"), ("warning threshold", "src/error.c error_print_list"), ("listing retention", "src/listing.c, src/program.c prog_line_set_text")],
     ["all output files", "stderr", "exit status"])
prop("C22", "Layout, case and comments do not affect the code",
     "The kind and amount of white space between fields and around operands, comments (; anywhere, * at line start, free text after complete operands that does not continue the expression), blank lines, letter case of mnemonics, directives and registers, line endings LF or CRLF and a missing final newline leave the generated code unchanged. Symbol names are significant in full and in case.",
     ["inputs"], "all combinations of layout variations applied to a line set covering every operand syntax",
     "Tests use one fixed layout.",
     ["src/lex.l", "src/grammar.y", "src/symbol.c", "dt101/dict.c"],
     [("scanner rules and start states", "src/lex.l"), ("free comment productions", "src/grammar.y"), ("case-insensitive lookups", "src/opcode.c, src/register.c, dt101/hash-djb2.c")],
     ["output file bytes"])
prop("C23", "Symbols are bound once, or last-assigned with SET",
     "A label, EQU or --define binds a symbol exactly once per program: a second such definition of the same name is an error, and every reference before or after yields the bound value. A symbol assigned by SET (and nothing else) yields at each later point the value most recently assigned before it, and definitions made with --define (value 1 if none given) behave like definitions in the source.",
     ["histories", "programs"], "all sequences of label, EQU, SET, --define and reference operations on two or three names up to a bounded length",
     "Tests define three labels once each; SET, EQU redefinition and --define are never used.",
     ["src/symbol.c", "src/assemble.c", "src/asm6809.c", "dt101/dict.c"],
     [("symbol table with pass stamps", "src/symbol.c"), ("label handling", "src/assemble.c set_label"), ("--define", "src/asm6809.c define_symbol")],
     ["output file bytes", "symbols file", "exit status"])
prop("C24", "END stops input and fixes the EXEC address; --exec overrides it",
     "Lines after END in a file have no effect, whatever they contain, and END's address operand, in any numeric form or symbol, forward or not, becomes the EXEC address in every format that carries one. An --exec number or symbol replaces it, and with neither the formats use their documented default of the load address or none.",
     ["inputs", "configurations"], "all END operands kinds and positions x --exec absent, numeric in every notation, symbolic, undefined x formats",
     "One test ends with END start and checks one S9 record.",
     ["src/assemble.c", "src/asm6809.c", "src/output.c", "src/grammar.y"],
     [("END handling at parse and assembly", "src/grammar.y check_end_opcode, src/assemble.c pseudo_end"), ("exec override", "src/asm6809.c main"), ("exec output", "src/output.c")],
     ["output file bytes", "exit status"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
