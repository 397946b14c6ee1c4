"""C09: conditional assembly."""
import itertools
import refasm as RA
from batch import chunked
from common import check_prog
from explore import *
from refasm import L, I, S, STR, B, U, T, A, PC, EMPTY, R, Line
from contexts import CTX, surround
from run import Check, TIER

DEEP = TIER == "thorough"
DIR = {"i0": L("if", I(0)), "i1": L("if", I(1)), "s0": L("elsif", I(0)), "s1": L("elsif", I(1)), "e": L("else"), "n": L("endif")}
NAMES = list(DIR)


def body(seq, mark=0):
    """Directives with a distinct byte after each."""
    o = [L("fcb", I(mark))]
    for i, d in enumerate(seq):
        o += [DIR[d] if isinstance(d, str) else d, L("fcb", I((mark + 1 + i) & 255))]
    return o


def balanced(n):
    """Well-formed sequences of exactly n directives."""
    def go(k, st):
        if k == 0:
            if not st:
                yield []
            return
        if len(st) > k:
            return
        for d in ("i0", "i1"):
            for r in go(k - 1, st + (0,)):
                yield [d] + r
        if st:
            if st[-1] == 0:
                for d in ("s0", "s1"):
                    for r in go(k - 1, st):
                        yield [d] + r
                for r in go(k - 1, st[:-1] + (1,)):
                    yield ["e"] + r
            for r in go(k - 1, st[:-1]):
                yield ["n"] + r
    return go(n, ())


def every(w, n):
    """All sequences of directives, balanced or not."""
    for s in w.mine(seqs(NAMES, n)):
        check_prog(w, body(s) + [L("fcb", I(0xee))], symbols=False, what="structure")


def wellformed(w, rng):
    """Well-formed ones go many to a program."""
    for n in range(*rng):
        for b in chunked(w.mine(balanced(n)), 30):
            p = []
            for i, s in enumerate(b):
                p += body(s, i)
            v = len(w.violations)
            check_prog(w, p, symbols=False, what="well-formed structures")
            if len(w.violations) > v:
                w.violations.pop()
                for s in b:
                    check_prog(w, body(s) + [L("fcb", I(0xee))], symbols=False, what="structure")
                if len(w.violations) == v:
                    check_prog(w, p, symbols=False, what="well-formed structures")


def wraps(s):
    """The same structure in every kind of place."""
    b = body(s)
    e = [L("fcb", I(0xee))]
    yield {"a.s": [L("macro", label="m")] + b + [L("endm"), L("m")] + e}
    yield {"a.s": [L("macro", label="m")] + b + [L("endm"), L("if", I(1)), L("m"), L("else"), L("m"), L("endif"), L("m")] + e}
    yield {"a.s": [L("include", STR("i.s"))] + e, "i.s": b}
    yield {"a.s": [L("if", I(0)), L("include", STR("i.s")), L("elsif", I(1)), L("include", STR("i.s")), L("else"),
                   L("include", STR("i.s")), L("endif")] + e, "i.s": b}
    yield {"a.s": [L("if", I(0))] + b + [L("endif")] + e}
    yield {"a.s": [L("if", I(1))] + b + [L("endif")] + e}
    yield {"a.s": [L("if", I(1)), L("fcb", I(0xdd)), L("else")] + b + [L("endif")] + e}
    yield {"a.s": [L("macro", label="m"), L("if", A(1))] + b + [L("elsif", A(2))] + b + [L("else")] + b + [L("endif"), L("endm")] +
           [L("m", I(i), I(j)) for i in (0, 1) for j in (0, 1)] + e}


def places(w, n):
    for s in w.mine(seqs(NAMES, n)):
        for i, fs in enumerate(wraps(s)):
            check_prog(w, fs, symbols=False, what="structure in place %d" % i)


def twofiles(w, n):
    """Conditionals do not extend over the end of a file or macro."""
    for s in w.mine(seqs(NAMES, n)):
        for k in range(len(s) + 1):
            check_prog(w, {"a.s": body(s[:k]), "b.s": body(s[k:], 0x80)}, ("a.s", "b.s"), symbols=False, what="over two files")
            check_prog(w, {"a.s": body(s[:k]) + [L("include", STR("b.s")), L("fcb", I(1))], "b.s": body(s[k:], 0x80)}, symbols=False, what="over an include")
            check_prog(w, [L("macro", label="m")] + body(s[k:], 0x80) + [L("endm")] + body(s[:k]) + [L("m"), L("fcb", I(1))], symbols=False,
                       what="over a macro")


# lines that must have no effect when skipped
SKIP = [[L("undefinedop", I(1))], [L("fcb", I(0x99), label="dup")], [L("equ", I(7), label="dup")], [L("set", I(9), label="qs")], [L("org", I(0x4000))],
        [L("section", STR("other"))], [L("put", I(0x300))], [L("setdp", I(0x12))], [L("include", STR("missing"))], [L("include", STR("i.s"))],
        [L("includebin", STR("missing"))], [L("rmb", I(5))], [L("lda", S("undef"))], [L("lda", R("x"), R("y"))], [L("fcb")], [L("m", I(3))],
        [L("macro", label="n"), L("fcb", I(0x98)), L("endm")], [L("macro", label="n"), L("if", I(0)), L("endif"), L("endm")],
        [L("macro", label="m"), L("fcb", I(0x97)), L("endm")], [L("endm")], [L("export", I(1))],
        [Line(1)], [Line("dup")], [L("fdb", ("b", 3))], [L("align", I(0))], [L("fill", I(1))], [L("bra", I(0x7000))], [L("fcb", B("%", I(1), I(0)))],
        [L("if"), L("else"), L("endif")], [L("if", R("a")), L("elsif", R("b")), L("endif")], [L("if", S("undef")), L("fcb", I(1)), L("endif")],
        [L("data")], [L("bss", label="dup")], [L("equ", S("dup"), label="dup")], [L("rzb", I(-1))], [L("fcb", A(1))], [L("opt", I(1))],
        [L("fcb", I(0x96)), L("macro", label="n"), L("fcb", I(0x95)), L("endm"), L("n")]]
PRE = [L("org", I(0x1000)), L("macro", label="m"), L("fcb", A(1)), L("endm"), L("equ", I(3), label="dup"), L("set", I(5), label="qs"),
       Line(1), L("lda", I(0x1240))]
POST = [L("fdb", S("dup"), S("qs"), PC, ("b", 1)), L("lda", I(0x1240)), L("m", I(0x77)), L("fdb", ("f", 2)), Line(2)]
SHAPES = [lambda x: [L("if", I(0))] + x + [L("endif")], lambda x: [L("if", I(1)), L("else")] + x + [L("endif")],
          lambda x: [L("if", I(1)), L("elsif", I(1))] + x + [L("endif")], lambda x: [L("if", I(0)), L("elsif", I(0))] + x + [L("else"), L("endif")],
          lambda x: [L("if", I(0)), L("if", I(1))] + x + [L("else")] + x + [L("endif"), L("endif")],
          lambda x: [L("if", I(0))] + x + [L("elsif", I(1)), L("elsif", I(1))] + x + [L("else")] + x + [L("endif")],
          lambda x: [L("if", S("undef"))] + x + [L("endif")]]
INC = {"i.s": [L("fcb", I(0x94))]}


def skipped(w, arg):
    for x, sh in w.mine(itertools.product(seqs(range(len(SKIP)), 2), SHAPES)):
        p = cat([SKIP[i] for i in x])
        f = {"a.s": PRE + sh(p) + POST}
        f.update(INC)
        check_prog(w, f, what="skipped lines")
        if len(x) == 1:
            f = {"a.s": PRE + [L("macro", label="mm")] + sh(p) + [L("endm"), L("mm"), L("mm")] + POST}
            f.update(INC)
            check_prog(w, f, what="skipped lines in a macro")
            # and taken, for contrast: the reference says what each does
            f = {"a.s": PRE + [L("if", I(1))] + p + [L("endif")] + POST}
            f.update(INC)
            check_prog(w, f, what="taken lines")


CONDS = [I(0), I(1), I(-1), I(2), I(256), I(65536), I(1 << 32), I(1 << 62), I(0, "$0000"), ("flt", 0.0), ("flt", 0.5), ("flt", 1.5), ("flt", -0.9),
         STR("A"), STR("AB"), S("undef"), B("+", S("undef"), I(1)), U("!", S("undef")), U("-", S("undef")), B("==", S("undef"), I(0)),
         B("&&", S("undef"), I(1)), B("||", S("undef"), I(1)), S("bk"), S("fw"), B("-", S("fw"), I(7)), S("bf"), B("==", STR("a"), STR("a")), B("==", STR("a"), STR("b")),
         T(I(0), I(1), I(0)), PC, B("-", PC, I(0x1000)), ("b", 1), B("-", ("b", 1), I(0x1000)), B("%", I(1), I(0)), B("/", I(1), I(3)), R("a"), EMPTY,
         S("zz"), B("==", S("bk"), I(7)), B("<", I(-1), I(0)), B(">>", I(1), I(1)), S("ssm"), S("num"), U("!", I(0)), U("~", I(-1)), ("b", 7),
         B("*", I(1 << 32), I(1 << 32))]


def conds(w, arg):
    """Every kind of condition in IF and in ELSIF."""
    pre = [L("org", I(0x1000)), L("equ", I(7), label="bk"), L("equ", I(0), label="zz"), L("equ", STR("q"), label="ssm"), L("equ", ("flt", 0.25), label="bf"), Line(1)]
    post = [L("equ", I(7), label="fw")]

    def gen():
        for c in CONDS:
            yield [L("if", c), L("fcb", I(1)), L("else"), L("fcb", I(2)), L("endif"), L("fcb", I(3))]
            yield [L("if", I(1)), L("fcb", I(4)), L("elsif", c), L("fcb", I(1)), L("else"), L("fcb", I(2)), L("endif"), L("fcb", I(3))]
            yield [L("if", c, c), L("fcb", I(1)), L("endif"), L("fcb", I(3))]
            yield [L("if", I(0)), L("elsif", c, I(1)), L("fcb", I(1)), L("endif"), L("fcb", I(3))]
            yield [L("macro", label="m"), L("if", A(1)), L("fcb", I(1)), L("else"), L("fcb", I(2)), L("endif"), L("endm"), L("m", c)]
            for d in CONDS:
                yield [L("if", c), L("fcb", I(1)), L("elsif", d), L("fcb", I(2)), L("elsif", c), L("fcb", I(3)), L("else"), L("fcb", I(4)), L("endif"), L("fcb", I(5))]
                yield [L("if", c), L("if", d), L("fcb", I(1)), L("else"), L("fcb", I(2)), L("endif"), L("else"), L("if", d), L("fcb", I(3)), L("endif"), L("endif"), L("fcb", I(4))]
        for d in ("else", "endif"):
            yield [L("if", I(1)), L(d, I(1)), L("endif")]
        yield [L("if", I(0)), L("fcb", I(1)), L("elsif"), L("fcb", I(2)), L("endif")]
        yield [L("if"), L("fcb", I(1)), L("endif")]
    for p in w.mine(gen()):
        for isa in (9, 3) if DEEP else (9,):
            check_prog(w, pre + p + post, isa=isa, what="condition")


def probes(w, n):
    """One line that is an error when assembled, at each place of each structure, and in macros and includes."""
    bad = [L("fcb", S("nosuch")), L("if", B("+", S("nosuch"), I(1))), L("rmb", B("+", S("nosuch"), I(2)))]
    for k in range(1, n + 1):
        for s in w.mine(balanced(k)):
            for i in range(k + 1):
                for j, x in enumerate(bad):
                    b = []
                    for q, d in enumerate(s):
                        b += [x] * (q == i) + [L("endif")] * (q == i and j == 1) + [DIR[d], L("fcb", I(q + 1))]
                    b += ([x] + [L("endif")] * (j == 1)) if i == k else []
                    check_prog(w, b + [L("fcb", I(0xee))], symbols=False, what="undefined symbol in a structure")
                    if j == 0:
                        check_prog(w, [L("macro", label="m")] + b + [L("endm"), L("if", I(1)), L("m"), L("endif"), L("fcb", I(0xee))], symbols=False, what="undefined symbol in a macro's structure")
                        check_prog(w, {"a.s": [L("if", S("un")), L("elsif", I(1)), L("include", STR("i.s")), L("endif"), L("fcb", I(0xee))], "i.s": b}, symbols=False, what="undefined symbol in an include's structure")
    # conditions that are undefined, then uses that must not be
    und = {"iu": L("if", S("un")), "su": L("elsif", S("un")), "su1": L("elsif", B("==", S("un"), I(0)))}
    al = dict(DIR)
    al.update(und)
    for s in w.mine(seqs(list(al), 4)):
        if not any(d in und for d in s):
            continue
        for x in (L("fcb", S("nosuch")), L("fcb", S("fw"))):
            b = cat([[al[d], x if i == len(s) - 1 else L("fcb", I(i))] for i, d in enumerate(s)])
            check_prog(w, b + [L("endif")] * (sum(d[0] == "i" for d in s) - s.count("n")) + [L("fcb", I(0xee)), L("equ", I(9), label="fw")], symbols=False, what="undefined condition")


def deep(w, arg):
    """Nesting far deeper than any fixed limit, and very long chains."""
    for n in w.mine(list(range(1, 70)) + [100, 127, 128, 129, 255, 256, 257, 300, 1000]):
        for kind in range(4):
            if kind == 0:
                p = [L("if", I(1))] * n + [L("fcb", I(1))] + [L("else"), L("fcb", I(2)), L("endif")] * n
            elif kind == 1:
                p = [L("if", I(0))] * n + [L("fcb", I(1))] + [L("else"), L("fcb", I(2)), L("endif")] * n
            elif kind == 2:
                p = [L("if", I(0))] + [L("elsif", I(0)), L("fcb", I(1))] * n + [L("elsif", I(1)), L("fcb", I(2))] + [L("elsif", I(1)), L("fcb", I(3))] * n + [L("endif")]
            else:
                p = [L("if", I(i % 3 != 2)) for i in range(n)] + [L("fcb", I(1))] + [x for i in range(n) for x in (L("fcb", I(i & 255)), L("endif"))]
            check_prog(w, p + [L("fcb", I(9))], symbols=False, what="depth %d" % n)


def inside(w, n):
    """Every well-formed structure within one to eight open branches of every kind."""
    opens = [([L("if", I(1))], [L("else"), L("fcb", I(0x71)), L("endif")]), ([L("if", I(0)), L("fcb", I(0x72)), L("elsif", I(1))], [L("elsif", I(1)), L("fcb", I(0x73)), L("endif")]),
             ([L("if", I(0)), L("else")], [L("endif")]), ([L("if", I(0))], [L("elsif", I(1)), L("fcb", I(0x74)), L("endif")]), ([L("if", I(1)), L("elsif", I(1))], [L("else"), L("fcb", I(0x75)), L("endif")])]
    st = list(itertools.chain.from_iterable(balanced(k) for k in range(2, n + 1)))
    nests = [(o,) * d for o in opens for d in range(1, 9)] + [(opens[0],) * d + (o,) for o in opens[1:] for d in range(1, 8)] + [(opens[1],) * d + (o,) for o in opens[2:] for d in range(1, 8)]
    for t, g in w.mine(itertools.product(nests, list(chunked(st, 40)))):
        p = []
        for i, s in enumerate(g):
            p += body(s, i)
        check_prog(w, cat(o[0] for o in t) + p + cat(o[1] for o in reversed(t)) + [L("fcb", I(0xee))], symbols=False, what="structures at depth %d" % len(t))


def surrounded(w, arg):
    """Every short sequence of conditionals, balanced or not, and every condition, in every kind of surroundings."""
    surround(w, (body(s) for s in seqs(NAMES, 4 if DEEP else 3)), "structure")
    surround(w, ([x for s in g for x in body(s, 3)] for g in chunked(itertools.chain.from_iterable(balanced(n) for n in range(2, 6)), 12)), "nested")
    surround(w, ([L("equ", I(1), label="kqc"), L("if", e), L("fcb", I(1)), L("elsif", S("kqc")), L("fcb", I(2)), L("endif"), L("if", I(0)), L("elsif", e), L("fcb", I(3)), L("else"), L("fcb", I(4)), L("endif")] for e in CONDS), "condition")


def main():
    c = Check("C09")
    n = 7 if DEEP else 6
    c.bounds = ["every sequence of up to %d of IF 0, IF 1, ELSIF 0, ELSIF 1, ELSE, ENDIF, balanced or not, a distinct byte after each" % n,
                "every well-formed structure of up to %d directives" % (11 if DEEP else 9),
                "every sequence of up to %d in 8 kinds of place (macro, include, nested); up to %d split over files, includes and macros" % ((6, 5) if DEEP else (4, 4)),
                "every pair of %d kinds of skipped lines in 7 shapes" % len(SKIP), "every pair of %d conditions in IF/ELSIF chains and nests" % len(CONDS),
                "an undefined symbol at each place of every well-formed structure of up to %d directives, and after undefined conditions" % (6 if DEEP else 5),
                "nesting and chains up to 1000"]
    c.assumptions = ["reference assembler lib/refasm.py; END among skipped lines ends the file (unspecified)",
                     "lines with syntax errors are reported even where skipped"]
    c.explore(every, n)
    c.explore(wellformed, (7, 12 if DEEP else 10))
    c.explore(places, 6 if DEEP else 4)
    c.explore(twofiles, 5 if DEEP else 4)
    c.explore(probes, 6 if DEEP else 5)
    for f in (skipped, conds, deep):
        c.explore(f)
    c.explore(inside, 7 if DEEP else 6)
    c.bounds.append("every well-formed structure of up to %d directives within 1..8 open branches of %d kinds" % (7 if DEEP else 6, 5))
    c.explore(surrounded)
    c.bounds.append(CTX % "every sequence of up to 3 conditional directives and every condition")
    c.finish()
