"""C13: local labels."""
import itertools
import refasm as RA
from common import check_prog
from explore import *
from refasm import L, I, S, STR, B, U, T, A, PC, P, R, V, Line
from contexts import CTX, surround
from run import Check, TIER

DEEP = TIER == "thorough"
LT, GT, BANG = ("b", V(0, "<")), ("f", V(0, ">")), V(0, "!")
B1, F1, B2, F2 = ("b", 1), ("f", 1), ("b", 2), ("f", 2)
N = L("fcb", I(9))
CORE = [[Line(1)], [Line(2)], [L("fdb", B1)], [L("fdb", F1)], [L("fdb", B2, F2)], [N], [L("section", STR("sa"))], [L("code")], [L("fdb", B1, F1, label=1)], [L("bra", F1, label=2)], [L("lbra", B1)]]
BANGS = [[Line(BANG)], [Line(0)], [L("bra", LT)], [L("bra", GT)], [L("lbra", ("b", 0))], [L("fdb", ("f", 0))], [L("lda", P("#", B("-", ("f", 0), ("b", 0))), label=BANG)], [L("code")], [L("bss")], [N]]
VAR = [[Line(1)], [L("lda", F1, R("pcr"))], [L("lda", B1, R("pcr"))], [L("ldb", F1)], [L("leax", F2, R("pcr"))], [Line(2)], [L("rmb", I(126))], [L("rmb", I(125))], [L("fdb", B1, F2)], [L("rmb", B("-", F2, B1))]]
KINDS = [[L("equ", I(0x1234), label=1)], [L("equ", B("+", B1, I(1)), label=1)], [L("set", I(5), label=1)], [L("org", I(0x200), label=1)], [L("rmb", I(3), label=1)], [L("align", I(8), label=1)], [L("fcb", B1, label=1)],
         [L("section", STR("sa"), label=1)], [L("fdb", B1)], [L("fdb", F1)], [L("if", B1), L("fcb", I(1)), L("endif")], [L("if", S("undef")), L("nop", label=1), L("endif")], [L("code")], [L("put", I(0x400), label=1)],
         [L("macro", label="mm"), L("fcb", I(7), label=1), L("fdb", B1, F1), L("endm")], [L("mm")], [L("include", STR("i.s"))], [L("equ", F1, label="sy")], [L("fdb", S("sy"))], [L("setdp", I(1), label=1)]]
INC = {"i.s": [L("fdb", B1), L("nop", label=1), L("fdb", B1, F1)]}


def walk(w, arg):
    alpha, n, head, tail, what = arg
    for s in w.mine(seqs(range(len(alpha)), n)):
        p = head + cat([alpha[i] for i in s]) + tail
        f = {"a.s": p}
        if alpha is KINDS:
            f.update(INC)
        check_prog(w, f, what=what)


def runs(w, arg):
    """Long runs of labels, referred to from every line."""
    for n in w.mine(list(range(1, 40)) + [64, 100, 127, 128, 255, 256, 300] + ([1000] if DEEP else [])):
        for nums in ((1,), (1, 2), (1, 1, 2), (0, 1, 99999)):
            p = []
            for i in range(n):
                k = nums[i % len(nums)]
                p.append(L("fdb", *[x for m in set(nums[:i + 1]) for x in ([("b", m)] if m in [nums[j % len(nums)] for j in range(i + 1)] else [])]
                           + [("f", m) for m in set(nums) if any(nums[j % len(nums)] == m for j in range(i + 1, n))], label=k))
            p = [L("org", I(0x100))] + [x if x.args else Line(x.label) for x in p]
            check_prog(w, p, what="run of %d labels" % n)
            half = len(p) // 2
            check_prog(w, {"a.s": p[:half], "b.s": p[half:]}, ("a.s", "b.s"), what="run over two files")
            check_prog(w, {"a.s": p[:half] + [L("include", STR("b.s"))], "b.s": p[half:]}, what="run over an include")
        # labels at distance n, both ways, in both sections at once
        p = [L("org", I(0x100)), Line(1)] + [N] * n + [L("fdb", B1, F1)] + [L("section", STR("sa")), L("org", I(0x1000))] + [N] * n + [L("fdb", F1)] + [L("code")] + [N] * n + [Line(1), L("section", STR("sa")), Line(1), L("fdb", B1)]
        check_prog(w, p, what="distance %d" % n)


def lengths(w, arg):
    """Labels on every line around and inside includes, macros, definitions, conditionals and blank lines of any length."""
    for n in w.mine(list(range(1, 50)) + [63, 64, 65, 127, 128, 129, 255, 256, 257] + ([1000, 4096] if DEEP else [])):
        for nums in ((1,), (1, 2), (1, None), (None, 2, 1)):
            def lab(k, last=False):
                x = nums[k % len(nums)]
                return L("fdb", *([B1] if k or x == 1 else []) + ([] if last else [F1]), label=x)
            inner = [lab(k) for k in range(n)]
            ways = [([L("include", STR("i.s"))], {"i.s": inner}), ([L("macro", label="mm")] + inner + [L("endm"), L("mm")], {}), ([L("macro", label="mm")] + inner + [L("endm")], {}), ([L("if", I(0))] + inner + [L("endif")], {}),
                    ([L("if", I(1))] + inner + [L("endif")], {}), ([Line(None)] * n, {}), ([Line(raw="; c", bad=False)] * n, {}), ([L("macro", label="mm"), L("include", STR("i.s")), L("endm"), L("mm"), L("mm")], {"i.s": inner}),
                    ([L("include", STR("j.s"))], {"j.s": [lab(0), L("include", STR("i.s")), lab(1)], "i.s": inner}), ([L("section", STR("sa"))] + [L("fcb", I(1), label=1)] + inner + [Line(1), L("code")], {}),
                    ([L("include", STR("i.s")), lab(1), L("include", STR("i.s"))], {"i.s": inner})]
            for way, fs in ways:
                for before, after in ((1, n + 3), (0, n), (n, 1), (n + 2, 2 * n)):
                    if (before + after) * n > 20000:
                        before, after = min(before, 20), min(after, 20)
                    p = [L("org", I(0x100))] + [L("fcb", I(9), label=1)] + [lab(k) for k in range(before)] + way + [lab(k + 1) for k in range(after)] + [L("fcb", I(8), label=1)]
                    check_prog(w, dict({"a.s": p}, **fs), what="%d lines between" % n)


def numbers(w, arg):
    """Label numbers and ways of writing labels and references."""
    ns = [0, 1, 2, 7, 8, 9, 10, 11, 19, 80, 99, 100, 255, 256, 65535, 65536, 99999, 1 << 31, (1 << 31) + 1, (1 << 32) + 1, (1 << 63) - 1]
    for a, b in w.mine(itertools.product(ns, repeat=2)):
        for fwd in (0, 1):
            for ca in ("b", "B") if not fwd else ("f", "F"):
                r = ("f" if fwd else "b", V(b, "%d%s" % (b, ca)))
                p = [L("fdb", r), L("nop"), Line(a)] if fwd else [Line(a), L("nop"), L("fdb", r)]
                check_prog(w, [L("org", I(0x321))] + p, what="label number")
                check_prog(w, [L("org", I(0x321))] + p + [Line(b), L("lbra", ("b", a)), L("lbra", ("b", b))] + ([Line(b)] if fwd else []), what="label numbers")
    for t, v in w.mine([("1", 1), ("%1", 1), ("@1", 1), ("$1", 1), ("0x1", 1), ("0b1", 1), ("01", 1), ("'1", 49), ("$A", 10), ("010", 8), ("%1010", 10), ("!", 0), ("0", 0), ("$0", 0)]):
        for r, x in (("1b", 1), ("1f", 1), ("10b", 10), ("8b", 8), ("49B", 49), ("0B", 0), ("<", 0), (">", 0), ("49f", 49), ("10F", 10)):
            k = "b" if r[-1] in "bB<" else "f"
            check_prog(w, [L("fcb", I(1), label=V(v, t)), L("fdb", (k, V(x, r))), L("nop", label=V(v, t))], what="label notation")


def exprs(w, arg):
    """References inside expressions, indexed operands and macro arguments."""
    es = [B("-", F1, B1), B("+", B1, I(1)), B("*", I(2), F1), U("-", B1), T(B1, F1, B1), B("&", F1, I(0xff)), B("==", B1, B1), B("<", B1, F1), B(">>", F1, I(8)), B("-", B2, F2), B("<<", LT[:1] + (0,), I(1))]
    fs = [lambda e: [L("fdb", e)], lambda e: [L("ldx", P("#", e))], lambda e: [L("ldx", e)], lambda e: [L("lda", e, R("x"))], lambda e: [L("ldx", ("list", (e,)))], lambda e: [L("rmb", B("&", e, I(15)))],
          lambda e: [L("mac", e)], lambda e: [L("mac2", e)], lambda e: [L("equ", e, label="sy"), L("fdb", S("sy"))], lambda e: [L("if", e), N, L("endif")], lambda e: [L("fcb", B(">>", e, I(8)), e, label=1)],
          lambda e: [L("org", B("+", B("&", e, I(255)), I(0x4000)))], lambda e: [L("aim", P("#", e), e)], lambda e: [L("set", e, label="sy"), L("fdb", S("sy"))], lambda e: [L("fill", e, I(3))]]
    m = [L("macro", label="mac"), L("fdb", A(1)), Line(1), L("fdb", A(1), B1), L("endm"), L("macro", label="mac2"), Line(1), L("mac", A(1)), Line(1), L("endm")]
    for e, f in w.mine(itertools.product(es, fs)):
        for g in ([], [L("section", STR("sa")), Line(1), L("code")]):
            check_prog(w, [L("org", I(0x1000))] + m + [L("nop", label=1), L("nop", label=2), L("nop", label=0)] + g + f(e) + [N] + g + [L("nop", label=1), L("nop", label=2)], isa=3, what="reference in expression")


def surrounded(w, arg):
    """Short histories of local labels and references in every kind of surroundings."""
    for al in (CORE, BANGS, VAR[:7]):
        surround(w, (cat(s) + [Line(1), Line(2)] for s in seqs(al, 3 if DEEP else 2)), "local labels")
    surround(w, (cat(s) for s in seqs(CORE[:6], 4 if DEEP else 3)), "local labels")


def main():
    c = Check("C13")
    d = 5 if DEEP else 4
    c.bounds = ["every sequence of up to %d of %d label, reference and section lines; of %d with !, < and >; of %d with sizes depending on references" % (d, len(CORE), len(BANGS), len(VAR)),
                "every sequence of up to %d of %d lines where other directives, macros, includes and excluded lines carry labels" % (4 if DEEP else 3, len(KINDS)),
                "runs of up to %d labels referred to from every line" % (1000 if DEEP else 300), "labels on every line before, in and after includes, macros, definitions, conditionals and blanks of up to %d lines" % (4096 if DEEP else 257), "all pairs of 21 label numbers; 14 notations x 10 references", "11 expressions of references in 15 places"]
    c.assumptions = ["reference assembler lib/refasm.py: a reference B includes its own line's label"]
    h = [L("org", I(0x100))]
    c.explore(walk, (CORE, d, h, [], "history"))
    c.explore(walk, (CORE, d - 1, h, [Line(1), Line(2), L("section", STR("sa")), Line(1), Line(2)], "history"))
    c.explore(walk, (BANGS, d, h, [], "unnumbered labels"))
    c.explore(walk, (BANGS, d - 1, h, [Line(BANG), L("bss"), Line(BANG)], "unnumbered labels"))
    c.explore(walk, (VAR, d, h, [Line(1), Line(2)], "changing sizes"))
    c.explore(walk, (KINDS, 4 if DEEP else 3, h, [Line(1)], "labelled lines"))
    for f in (runs, lengths, numbers, exprs):
        c.explore(f)
    c.explore(surrounded)
    c.bounds.append(CTX % "all sequences of up to 2 or 3 labels and references")
    c.finish()
