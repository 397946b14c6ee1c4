"""C10: macros."""
import itertools
import refasm as RA
from batch import chunked
from common import check_prog
from explore import *
from refasm import L, I, S, STR, B, U, T, A, ID, P, PC, EMPTY, R, V, Line
from contexts import CTX, surround
from run import Check, TIER

DEEP = TIER == "thorough"
HEAD = [L("org", I(0x1000)), L("equ", I(0x4321), label="k5"), L("equ", I(0x1357), label="g5r"), L("equ", I(7), label="ki"), L("equ", STR("gr"), label="ks"), L("set", I(0), label="cnt"),
        L("macro", label="two"), L("fcb", I(0xd2), A(1)), L("fdb", A(2)), L("endm"),
        L("macro", label="zero"), L("fcb", I(0xd0)), L("endm"),
        L("macro", label="swp"), L("two", A(2), A(1)), L("fcb", A(1)), L("endm"), Line(1)]
TAIL = [L("fdb", PC, S("cnt")), L("equ", I(0x345), label="fw"), Line(1)]
BINS = {"gr": b"QR", "ab": b"AB", "i5": b"I5"}
FILES = {"5": [L("fcb", I(0x50), A(2))]}

# body lines over \1 and \2
BODY = [[L("fcb", A(1))], [L("fdb", A(1), A(2))], [L("lda", P("#", A(1)))], [L("ldx", A(1))], [L("lda", A(1), R("x"))], [L("lda", EMPTY, A(1))],
        [L("lda", A(1), A(2))], [L("ldy", ("list", (A(1), A(2))))], [L("ldy", ("list", (A(1),)))], [L("ldx", P("<", A(1)))], [L("lda", P(">", A(1)), A(2))],
        [L("pshs", A(1), A(2))], [L("tfr", A(1), A(2))], [L("tfm", A(1), A(2))], [L("aim", P("#", A(1)), A(2))], [L("bra", A(1))], [L("lbra", A(2))],
        [L("fcc", STR("a", 1, "b"))], [L("fcc", STR(2), STR(1, 2))], [L("nop", label=ID("l", 1))], [L("nop", label=ID(1, "l")), L("fdb", ID(1, "l"))],
        [L("equ", A(2), label=ID("t", 1, "_", 2))], [L("fdb", ID("t", 1)), L("equ", I(0x777), label=ID("t", 1))], [L("fdb", ID("k", 1))], [L("set", B("+", S("cnt"), A(1)), label="cnt")],
        [L("rmb", A(1))], [L("fill", A(2), A(1))], [L("if", A(1)), L("fcb", I(0xaa)), L("else"), L("fcb", I(0xbb)), L("endif")],
        [L("if", B("==", A(1), A(2))), L("fcb", I(0xac)), L("endif")], [L("two", A(1), A(2))], [L("two", A(2), A(1)), L("fcb", A(1))], [L("swp", A(1), A(2))],
        [L("two", STR("x", 1), B("+", A(2), I(1)))], [L("zero"), L("fcb", A(2))], [L("two", R("x", "+"), A(1))], [L("section", STR(1)), L("fcb", A(2)), L("code")], [L("includebin", STR(1))],
        [L("include", STR(1))], [Line(1), L("bra", ("b", 1))], [L("fdb", ("b", 1), ("f", 1))], [L("org", A(1))], [L("fdb", B("*", A(1), I(3)), U("-", A(2)), T(A(1), A(2), I(9)))],
        [L("macro", label=ID("mm", 1)), L("fcb", I(0xe0), A(1)), L("endm"), L("fcb", A(2))], [L("fcb", A(3))], [Line(ID("lw", 1)), L("fdb", ID("lw", 1))],
        [L("export", ID("k", 1)), L("fcb", I(3))], [L("setdp", A(1)), L("lda", I(0x5ff))], [L("fcs", A(2), A(1))], [L("leax", A(1), R("pcr"))], [L("end", A(1))]]
NOVAL = B("%", I(1), I(0))
ARGS = [I(5), I(-3), I(0x1234), I(0), STR("ab"), STR("i5"), STR("g"), R("a"), R("x"), R("x", "+"), R("y", "++"), R("u", "-"), R("s", "--"), R("pcr"), S("ki"), S("ks"),
        S("fw"), B("+", S("ki"), I(1)), PC, ("b", 1), ("f", 1), EMPTY, ("list", (I(5), R("x"))), S("undef"), ("flt", 2.5), NOVAL, I(65, "'A"), S("cnt")]


def has(p, ix):
    """Two arguments unless the second is beyond those used."""
    return True


def call(body, args, head=HEAD, tail=TAIL):
    return head + [L("macro", label="m")] + body + [L("endm"), L("m", *args), L("fcb", I(0xff))] + tail


def go(w, p, what, files=None, **kw):
    f = {"a.s": p}
    f.update(FILES)
    f.update(files or {})
    # a valueless argument is reported where it is written or where it is used
    vless = any(NOVAL in l.args for l in p)
    check_prog(w, f, isa=3, bins=BINS, what=what, where=not vless, **kw)


def single(w, arg):
    """Every body line, every pair of arguments; and too few or too many of them."""
    for b, (x, y) in w.mine(itertools.product(BODY, itertools.product(ARGS, repeat=2))):
        if b[0].lop == "end" or (b[0].lop == "export" and y is not ARGS[0]):
            continue
        go(w, call(b, [x, y]), "call")
    for b, x in w.mine(itertools.product(BODY, ARGS)):
        go(w, call(b, [x]), "one argument")
        go(w, call(b, [x, I(1), I(2), STR("zz")]), "four arguments")
    for b in w.mine(BODY):
        go(w, call(b, []), "no arguments")


def double(w, arg):
    """Bodies of two lines, for a choice of arguments; called twice."""
    pairs = [(I(5), I(9)), (I(5), STR("ab")), (R("a"), R("b")), (STR("i5"), S("fw")), (S("fw"), S("ki")), (I(0), I(5)), (R("x"), R("y", "++")), (S("fw"), R("x"))]
    if DEEP:
        pairs += list(itertools.product(ARGS[::2], ARGS[1::3]))
    for x, y, (a, b) in w.mine(itertools.product(BODY[:-1], BODY[:-1], pairs)):
        go(w, call(x + y, [a, b]), "two lines")
    for x, y in w.mine(itertools.product(BODY[:-1], BODY[:-1])):
        p = HEAD + [L("macro", label="m")] + x + [L("endm"), L("macro", label="n")] + y + [L("endm"), L("m", I(5), I(6)), L("n", I(7), STR("ab")), L("m", I(8), I(9)), L("fcb", I(0xff))] + TAIL
        go(w, p, "several calls")
        p = HEAD + [L("macro", label="m")] + x + [L("n", A(2), A(1))] + x + [L("endm"), L("macro", label="n")] + y + [L("endm"), L("m", I(5), I(6)), L("fcb", I(0xff))] + TAIL
        go(w, p, "nested call")
        for inner, outer in (((), (I(5), I(6))), ((A(2),), (I(5), I(6))), ((), (I(5),)), ((I(3), I(4)), ())):
            p = HEAD + [L("macro", label="m"), L("n", *inner)] + x + [L("endm"), L("macro", label="n")] + y + [L("endm"), L("m", *outer), L("fcb", I(0xff))] + TAIL
            go(w, p, "nested call with %d arguments in one with %d" % (len(inner), len(outer)))


def history(w, n):
    """Sequences of definitions, calls and what lies between."""
    ops = [[L("macro", label="m"), L("fcb", I(1), A(1)), L("endm")], [L("macro", label="m"), L("fcb", I(2)), L("p", A(1)), L("endm")],
           [L("macro", label="p"), L("fcb", I(3), A(1)), L("endm")], [L("m", I(0x11))], [L("p", I(0x22))], [L("m")], [L("fcb", I(4))],
           [L("if", S("later")), L("m", I(0x33)), L("endif")], [L("equ", PC, label="later")], [L("endm")], [L("macro", label="m")], [L("macro")],
           [L("macro", label="lda"), L("fcb", I(9)), L("endm")], [L("lda", P("#", I(1)))], [L("macro", label="M"), L("fcb", I(8), A(1)), L("endm")], [L("M", I(0x44))],
           [L("macro", label="q1"), L("macro", label="p"), L("fcb", I(7), A(1)), L("endm"), L("fcb", I(6)), L("endm")], [L("q1")], [L("fcb", A(1))]]
    for s in w.mine(seqs(range(len(ops)), n)):
        go(w, cat([ops[i] for i in s]) + [L("fcb", I(0xee))], "history")


def notations(w, arg):
    """Every notation of a positional variable in every place."""
    lab = [V(1, "\\1"), V(1, "\\{1}"), V(1, "&1"), V(1, "&{1}")]
    ex = [V(1, "\\1"), V(1, "\\{1}"), V(1, "&{1}")]
    for v in w.mine(lab):
        for x in (I(5), STR("ab"), R("a"), S("fw"), S("undef"), EMPTY, ("flt", 1.5), R("x", "+")):
            for b in ([L("fcc", STR(v))], [L("fcc", STR("a", v, "b", v))], [L("fcc", STR(v, v, "1"))], [Line(ID("l", v)), L("fdb", ID("l", 1))], [L("equ", I(4), label=ID(v, "z")), L("fdb", ID(1, "z"))],
                      [L("fcc", STR("a ", v, " b")), L("fcc", STR(v, " & x"))]):
                go(w, call(b, [x]), "notation in string or label")
            for op in ("fcc", "fcn", "fcb", "fdb"):
                go(w, call([L(op, I(1), STR(v))] if op != "fdb" else [L(op, B("+", STR(v), I(1)))], [x]), "notation in string")
    for v in w.mine(ex):
        for x in ARGS:
            for b in ([L("fcb", ("arg", v))], [L("fdb", B("+", ("arg", v), I(1)))], [L("fdb", B("+", I(1), ("arg", v)))], [L("fdb", ID("k", v))], [L("fdb", ID(v, "i"))], [L("fdb", ID("g", v, "r"))],
                      [L("fdb", B("&", I(3), ("arg", v)))] if v.t[0] != "&" else [L("nop")], [L("lda", ("arg", v), R("x"))], [L("lda", EMPTY, ("arg", v))], [L("fdb", B("*", ("arg", v), ("arg", v)))], [L("fdb", B("&", ("arg", v), I(1)))],
[L("ldx", P("#", ("arg", v)))], [L("lda", P("<", ("arg", v)))], [L("fdb", B("/", ("arg", v), ("arg", v)))], [L("fdb", B("%", I(9), ("arg", v)))],
                      [L("fdb", T(("arg", v), ("arg", v), ("arg", v)))], [L("fdb", U("-", ("arg", v)))], [L("fdb", U("~", ("arg", v)))], [L("fdb", ("arg", v), ("arg", v))], [L("lda", ("list", (("arg", v),)))]):
                go(w, call(b, [x]), "notation in expression")
                go(w, call(b, [x]), "notation in expression, spaced", mode="sp")
    # many arguments
    for n in w.mine(range(0, 40 if DEEP else 25)):
        args = [I(i + 1) for i in range(n)]
        for k in range(0, 45 if DEEP else 28):
            for t in ["\\{%d}", "&{%d}"] + (["\\%d"] if k < 10 else []):
                go(w, call([L("fcb", ("arg", V(k, t % k)))], args), "argument number")
            go(w, call([L("fcc", STR("<", V(k, "&{%d}" % k), ">"))], args), "argument number in string")
            go(w, call([Line(ID("l", V(k, "\\{%d}" % k)))], args), "argument number in label")
        go(w, call([L("fcb", *[("arg", V(k, "\\{%d}" % k)) for k in range(1, n + 1)])] if n else [L("nop")], args), "all arguments")
        go(w, call([L("fcb", *[("arg", V(k, "\\{%d}" % k)) for k in range(n, 0, -1)])] if n else [L("nop")], args), "all arguments reversed")
        go(w, call([L("fcb", A(1)), L("two", A(1), A(1)), L("fcb", *[A(k) for k in range(1, n + 1)])] if n else [L("nop")], args), "all arguments after a call")


PRE = ["", "k", "k.", "_", "a_", "k1", "K", "k.1"]
MID = ["", ".", "_", "..", "5", "z", ".z", "_9", "1.", "a.b"]
SUFX = ["", ".", ".1", "_1", "..", "1.", ".b", "9", "xx", "_", "1x", ".1.2", "x.", "e5", "_x"]


def pasting(w, arg):
    """Names built from text and arguments: every character a name may hold, before, between and after."""
    vals = [I(5), I(0), STR("ab"), STR("Q"), STR("a.b"), STR("_"), STR("x9"), S("ki"), S("ks"), S("fw"), I(-1), R("x")]
    names = ["k", "lab", "q_9"]
    for a, b in w.mine(itertools.product(PRE, SUFX)):
        if not a and not b:
            continue
        parts = ([a] if a else []) + [1] + ([b] if b else [])
        lab = not b or b[0].isalpha() or b[0] == "_"        # what follows a variable in a label must look like a name
        for x in vals if lab else []:
            # defined and used through the same pasted name, and used through another way of writing it
            go(w, call([Line(ID(*parts)), L("fdb", ID(*parts))], [x]), "pasted name")
            go(w, call([L("equ", I(0x99), label=ID(*parts)), L("lda", ID(*parts), R("x")), L("fcb", B("+", ID(*parts), I(1)))], [x]), "pasted name")
        for x in names:
            n = a + x + b
            go(w, [L("equ", I(0x4d), label=n)] + call([L("fcb", ID(*parts)), L("fcb", B("*", ID(*parts), I(2)))], [STR(x)]), "pasted name defined outside")
            if lab:
                go(w, call([L("equ", I(0x3d), label=ID(*parts))], [STR(x)]) + [L("fcb", S(n))], "pasted label used outside")
    for m, a, b in w.mine(itertools.product(MID, PRE[:4], SUFX[:5])):
        parts = ([a] if a else []) + [1] + ([m] if m else []) + [2] + ([b] if b else [])
        for x, y in ((STR("ab"), STR("cd")), (STR("k"), I(5)), (STR("q_"), STR(".z")), (STR("z"), S("ki"))):
            go(w, call([L("fdb", ID(*parts)), L("fcb", B("*", I(2), ID(*parts)))], [x, y], HEAD + [L("equ", I(0x77), label=a + "ab" + m + "cd" + b), L("equ", I(0x76), label=a + "z" + m + "7" + b)]), "pasted from two")
            if all(not t or t[0].isalpha() or t[0] == "_" for t in (m, b)):
                go(w, call([Line(ID(*parts)), L("fdb", ID(*parts)), L("equ", ID(*parts), label="qqz")], [x, y]), "pasted label from two")
    for v in w.mine([V(k, t % k) for k in range(0, 21) for t in ("\\{%02d}", "\\{%03d}", "\\{0000%d}", "&{%02d}", "&{00%d}")]):
        args = [I(0x40 + i) for i in range(20)]
        go(w, call([L("fcb", ("arg", v))], args), "leading zeros")
        go(w, call([L("fcc", STR("<", v, ">"))], args), "leading zeros in a string")
        go(w, call([Line(ID("l", v, "_")), L("fdb", ID("l", v, "_"))], args), "leading zeros in a label")


def numerals(w, arg):
    """Numbers of every size pasted into strings, labels and names, directly, through a symbol and through another call."""
    vs = sorted(set(s * (1 << b) + d for b in range(64) for s in (1, -1) for d in ((-1, 0, 1) if not DEEP else range(-3, 4))) | set(10 ** k + d for k in range(19) for d in (-1, 0, 1)))
    for v in w.mine([v for v in vs if -(1 << 63) < v < 1 << 63]):
        n = I(v) if v >= 0 else U("-", I(-v))
        for pre, x in (([], n), ([L("equ", n, label="kn")], S("kn")), ([L("set", n, label="kn")], S("kn"))):
            for b in ([L("fcc", STR("<", 1, ">"))], [L("fcc", STR(V(1, "&1")))], [L("fcc", STR(1, 1))], [L("two", STR("v", 1), I(3))], [L("swp", A(1), STR(1))], [L("include", STR(1))]) + \
                    (([Line(ID("l", 1)), L("fdb", ID("l", 1))], [L("equ", I(3), label=ID("t", 1, "_z")), L("fcb", S("t%d_z" % v)), L("fcb", ID("t", 1, "_z"))], [L("fcb", ID("k", 1, ".", 2))]) if v >= 0 else ()):
                go(w, pre + call(b, [x, I(7)]) + [L("equ", I(0x3b), label="k%d.7" % v)] * (v >= 0), "number pasted", {str(v): [L("fcb", I(0x5b))]})


def registers(w, arg):
    """Every register with every increment pasted into strings, labels and names."""
    import isa as ISA
    for r, m in w.mine(itertools.product(sorted(ISA.REGS[3]), ("", "+", "++", "-", "--", "p-"))):
        for x, pre in ((R(r, m), []), (S("kn"), [L("equ", R(r, m), label="kn")])):
            for b in ([L("fcc", STR("<", 1, ">"))], [L("fcc", STR(V(1, "&1"), 2))], [L("two", STR("v", 1), I(3))], [L("swp", A(1), STR(1))], [L("include", STR("f", 1))], [L("tfr", A(1), R("d"))], [L("lda", EMPTY, A(1))],
                      [Line(ID("l", 1)), L("fdb", ID("l", 1), S("l" + r))], [L("equ", I(3), label=ID("t", 1, "_z")), L("fcb", S("t%s_z" % r)), L("fcb", ID("t", 1, "_z"))], [L("fcb", ID("k", 1, ".", 2))]):
                go(w, pre + call(b, [x, I(7)]) + [L("equ", I(0x3b), label="k%s.7" % r)], "register pasted", {"f" + r: [L("fcb", I(0x5b))]})


def redefined(w, arg):
    """Definitions chosen differently in different passes."""
    def d(n, k):
        return [L("macro", label=n), L("fcb", I(k), A(1)), L("endm")]
    defs = [d("m1", 1), d("m1", 2), d("m2", 3), d("m2", 4), d("m3", 5), d("m3", 6)]
    def calls(*dss):
        have = set(l.label for ds in dss for i in ds for l in defs[i] if l.label)
        return [[L(n, I(0x40 + j)) for j, n in enumerate(sorted(have))], [L("m%d" % j, I(j)) for j in (1, 2, 3)]]
    post = [L("equ", I(5), label="late"), L("equ", I(1), label="far")]
    for a, b in w.mine(itertools.product(seqs(range(6), 3, 0), seqs(range(6), 3 if DEEP else 2, 0))):
        for c in calls(a, b)[:1 if len(a) + len(b) > 3 and not DEEP else 2]:
            p = [L("lda", S("late")), L("if", S("far"))] + cat([defs[i] for i in a]) + [L("else")] + cat([defs[i] for i in b]) + [L("endif")] + c
            check_prog(w, p + post, what="definitions by pass")
            if len(a) + len(b) < 4:
                pre = cat([defs[i] for i in (0, 2, 4)])
                check_prog(w, pre + p + post, what="redefinitions by pass")
                q = [L("lda", S("late"))] + cat([defs[i] for i in a]) + c + [L("if", S("far"))] + cat([defs[i] for i in b]) + c + [L("endif")]
                check_prog(w, q + post, what="definition in a later pass only")


def depth(w, arg):
    """Chains, recursion and includes around the depth limit; the arguments after each return."""
    for n in w.mine(range(1, 13)):
        p = []
        for i in range(1, n + 1):
            p += [L("macro", label="m%d" % i), L("fcb", I(i), A(1))] + ([L("m%d" % (i + 1), B("+", A(1), I(1)), A(1)), L("fcb", A(1), I(0x80 + i))] if i < n else []) + [L("endm")]
        go(w, p + [L("m1", I(0x20)), L("fcb", I(0xee))], "chain")
        go(w, p + [L("m1", I(0x20)), L("m1", I(0x30)), L("fcb", I(0xee))], "chain twice")
        for extra in (0, 1, 2):
            f = {"a.s": p + [L("include", STR("i1"))] if extra else p + [L("m1", I(1))]}
            if extra:
                f["i1"] = [L("include", STR("i2")), L("fcb", I(0x71))] if extra > 1 else [L("m1", I(2)), L("fcb", I(0x71))]
                f["i2"] = [L("m1", I(3)), L("fcb", I(0x72))]
            check_prog(w, f, what="chain under includes")
        r = [L("macro", label="r"), L("fcb", A(1)), L("if", A(1)), L("r", B("-", A(1), I(1)), STR("k", 1)), L("endif"), L("fcb", I(0x40), A(1)), L("endm")]
        go(w, r + [L("r", I(n - 1)), L("fcb", I(0xee))], "recursion")
        t = [L("macro", label="re"), L("fcb", I(0x10), A(1)), L("if", A(1)), L("ro", B("-", A(1), I(1))), L("else"), L("fcb", I(0x33)), L("endif"), L("fcb", A(1)), L("endm"),
             L("macro", label="ro"), L("fcb", I(0x20), A(1)), L("if", A(1)), L("re", B("-", A(1), I(1))), L("endif"), L("fcb", A(1)), L("endm")]
        go(w, t + [L("re", I(n - 1)), L("ro", I(n - 1)), L("fcb", I(0xee))], "mutual recursion")
        go(w, [L("macro", label="rf"), L("if", A(1)), L("rf", B("-", A(1), I(1))), L("rf", B("-", A(1), I(1))), L("endif"), L("fcb", A(1)), L("endm"), L("rf", I(min(n - 1, 6)))], "tree recursion")
        go(w, [L("macro", label="rf"), L("fcb", I(1)), L("rf"), L("endm")] + [L("if", I(0)), L("rf"), L("endif")] * n + [L("fcb", I(2))], "never called")


def crossing(w, arg):
    """Definitions and calls over several files."""
    d = [L("macro", label="m"), L("fcb", I(1), A(1)), L("endm")]
    parts = d + [L("m", I(5)), L("fcb", I(9)), L("m", STR("xy"))]
    for i, j in w.mine([(i, j) for i in range(len(parts) + 1) for j in range(i, len(parts) + 1)]):
        check_prog(w, {"a.s": parts[:i], "b.s": parts[i:j], "c.s": parts[j:]}, ("a.s", "b.s", "c.s"), what="definition over files")
        check_prog(w, {"a.s": parts[:i] + [L("include", STR("b.s"))] + parts[j:], "b.s": parts[i:j]}, what="definition over an include")
        check_prog(w, {"a.s": parts[:i] + [L("fcb", I(0xee), A(1))], "b.s": parts[i:j] + [Line("lb")], "c.s": parts[j:]}, ("a.s", "b.s", "c.s"), what="stray positional")
    nest = [L("macro", label="out"), L("fcb", I(1)), L("macro", label="in"), L("fcb", I(2), A(1)), L("endm"), L("in", A(1)), L("endm")]
    for k in w.mine(range(1, 4)):
        check_prog(w, nest + [L("out", I(0x33))] * k + [L("in", I(0x44))], what="macro defining a macro")
        deep = nest
        for lv in range(k):
            deep = [L("macro", label="w%d" % lv)] + deep + [L("fcb", I(lv), A(1)), L("endm")]
        check_prog(w, deep + [L("w%d" % lv, I(0x10 + lv)) for lv in reversed(range(k))] + [L("out", I(0x55)), L("in", I(0x66))], what="definitions nested %d deep" % k)
        check_prog(w, deep + [L("out", I(0x55))], what="inner macro before its definition")


def names(w, arg):
    """Two macros whose names differ in one place, in case, or in length: each is called by its own name alone."""
    base = "abcdefghijklmnopqrstuvwxyz0123456789_" * 4
    for n in w.mine(list(range(2, 70)) + [100, 127, 128, 129, 140]):
        nm = ("m" + base)[:n]
        for i in range(n):
            others = {nm[:i] + "K" + nm[i + 1:], nm[:i] + nm[i].upper() + nm[i + 1:], nm[:i], nm[:i] + "." + nm[i:], nm + nm[i]} - {nm, ""}
            if n > 40:
                others = {nm[:i] + "K" + nm[i + 1:], nm[:i]} - {nm, ""}
            for o in others:
                d1, d2 = [L("macro", label=nm), L("fcb", I(1), A(1)), L("endm")], [L("macro", label=o), L("fcb", I(2), A(1)), L("endm")]
                if o[0] in ".0123456789" or len(o) < 2:
                    continue
                check_prog(w, d1 + d2 + [L(nm, I(8)), L(o, I(9)), L(nm, S("fwd")), Line("fwd")], what="macros with like names")
                check_prog(w, d2 + [L(nm, I(8))] + d1 + [L(o, I(9)), L("equ", I(5), label=o), L("fcb", S(o))], what="a macro called by a like name")
                check_prog(w, d1 + [L("macro", label=o), L(nm, A(1)), L("fcb", I(3)), L("endm"), L(o, I(7)), L(nm, I(6))], what="a macro calling one of a like name")


def values(w, arg):
    """Arguments of every magnitude, with every prefix, reach the body unchanged through one macro or two."""
    vals = sorted({sg * ((1 << i) + d) for i in (0, 1, 4, 7, 8, 15, 16, 23, 24, 31, 32, 33, 47, 48, 62) for d in (-1, 0, 1) for sg in (1, -1)} | {0x12345678, 0x123456789abcdef, -0x12345678, 0x80ff7f01})
    px = [lambda a: a, lambda a: P("#", a), lambda a: P("<", a), lambda a: P(">", a), lambda a: P("<<", a)]
    uses = [[L("fqb", A(1))], [L("ldq", P("#", A(1)))], [L("fdb", B(">>", A(1), I(16)), B("&", A(1), I(0xffff)))], [L("fcb", *[B("&", B(">>", A(1), I(8 * i)), I(255)) for i in range(8)])],
            [L("equ", A(1), label="mv"), L("fqb", S("mv")), L("fcb", B("==", S("mv"), A(1)))], [L("fcc", STR("n", 1))], [L("ldx", A(1))], [L("if", B(">", A(1), I(0x7fff))), L("fcb", I(1)), L("endif"), L("fcb", B("<", A(1), I(0)))],
            [L("rmb", B("&", A(1), I(3))), L("fdb", PC)], [L("lda", A(1), R("x"))], [L("lda", ("list", (A(1),)))]]
    for v, x in w.mine(itertools.product(vals, range(len(px)))):
        a = I(v) if v >= 0 else U("-", I(-v))
        for u in uses:
            d = [L("macro", label="m")] + u + [L("endm")]
            for t in ([L("m", px[x](a))], [L("macro", label="o"), L("m", A(1)), L("endm"), L("o", px[x](a))], [L("m", px[x](S("fv"))), L("equ", a, label="fv")], [L("macro", label="o"), L("m", px[x](A(1))), L("m", A(2)), L("endm"), L("o", a, I(3))]):
                check_prog(w, d + [L("org", I(0x1000))] + t + [L("fcb", I(0xff))], what="argument of any size", isa=3)
    fl = [("flt", x) for x in (0.5, 1.0, 2.5, 1e10, 3.14159, 1e-5, 65535.5)]
    for f, x in w.mine(itertools.product(fl, range(len(px)))):
        for u in ([L("fcb", B(">", A(1), I(1)))], [L("fqb", B("*", A(1), I(1000)))], [L("fdb", A(1))], [L("equ", A(1), label="mv"), L("fcb", B("==", S("mv"), f), B("==", A(1), f))]):
            check_prog(w, [L("macro", label="m")] + u + [L("endm"), L("m", px[x](f)), L("m", px[x](U("-", f)))][:99], what="argument of any size", isa=3)


def surrounded(w, arg):
    """Macros whose bodies use their arguments in each way, defined and called in every kind of surroundings."""
    pr = [(I(5), I(0x1234)), (R("a"), R("x", "+")), (STR("g"), STR("i5")), (S("fw"), ("f", 1)), (EMPTY, I(3)), (PC, S("cnt"))]
    for b in BODY:
        if b[0].lop in ("end", "export"):
            continue
        cores = [call(b, a, [l for l in HEAD if l.lop != "org"]) for a in pr]
        cores += [call(b, pr[0], [l for l in HEAD if l.lop != "org"], [L("m", *a) for a in pr] + TAIL)]
        surround(w, cores, "macros", extra=FILES, isa=3, bins=BINS)


def main():
    c = Check("C10")
    c.bounds = ["%d bodies over \\1 and \\2 x all %d pairs of arguments, and 0, 1 and 4 arguments" % (len(BODY), len(ARGS) ** 2),
                "all pairs of bodies x %d argument pairs; all pairs as successive and as nested calls" % (8 if not DEEP else 134),
                "every sequence of up to %d of 19 definitions and calls" % (4 if DEEP else 3),
                "every notation of a positional variable in ~40 places x the arguments; numbers 0..%d of 0..%d arguments" % ((44, 39) if DEEP else (27, 24)),
                "names pasted from %d prefixes, %d infixes and %d suffixes; indices with leading zeros" % (len(PRE), len(MID), len(SUFX)),
                "numbers around every power of two and ten and all registers pasted into strings, labels, names and file names", "three macros defined differently by two passes: every sequence of up to 3 of 6 definitions in one, %d in the other" % (3 if DEEP else 2),
                "chains, recursion, mutual recursion and includes to depth 12", "pairs of macros whose names of 2..140 characters differ in one place, case or length", "arguments of 95 magnitudes with 5 prefixes in 11 uses, direct and through a second macro", "definitions split at every point over three files and includes; nested definitions"]
    c.assumptions = ["reference assembler lib/refasm.py; a prefix (#, <, >) on an argument is not part of its value; names are not pasted into operation fields"]
    for f in (single, double, notations, pasting, numerals, registers, redefined, depth, crossing, names, values):
        c.explore(f)
    c.explore(history, 4 if DEEP else 3)
    c.explore(surrounded)
    c.bounds.append(CTX % "every macro body called with 6 pairs of arguments")
    c.finish()
