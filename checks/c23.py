"""C23: labels, EQU, SET and --define."""
import itertools
import refasm as RA
from common import check_prog, opt_args
from explore import *
from refasm import L, I, S, STR, B, U, T, A, PC, P, R, V, Line
from contexts import CTX, surround
from run import Check, TIER

DEEP = TIER == "thorough"
N = L("fcb", I(9))


class El:
    """Lines, names they define ("once" or "set"), names they refer to before and after defining."""
    def __init__(s, lines, once=(), sets=(), refs=()):
        s.lines, s.once, s.sets, s.refs = lines, once, sets, refs


def ref(n, op="fdb"):
    return El([L(op, S(n))], refs=(n,))


def equ(n, e, refs=()):
    return El([L("equ", e, label=n)], once=(n,), refs=refs)


def sset(n, e, refs=()):
    return El([L("set", e, label=n)], sets=(n,), refs=refs)


P1, Q1 = "p1", "q1"
BIND = [ref(P1), ref(Q1), El([L("fcb", I(1), label=P1)], once=(P1,)), El([Line(P1)], once=(P1,)), equ(P1, I(7)), equ(P1, PC), equ(P1, S(Q1), (Q1,)), equ(Q1, B("+", S(P1), I(1)), (P1,)),
        El([L("fdb", S(P1), S(Q1), label=Q1)], once=(Q1,), refs=(P1,)), ref(P1, "lda"), El([L("org", I(0xf0), label=P1)], once=(P1,)), El([L("if", S(P1)), N, L("endif")], refs=(P1,)), El([N])]
KINDS = [El([L(op, *a, label=P1)], once=(P1,)) for op, a in (("rmb", [I(3)]), ("align", [I(4)]), ("put", [I(0x300)]), ("section", [STR("s2")]), ("code", []), ("setdp", [I(0)]), ("rzb", [I(2)]), ("nop", []), ("bra", [S(P1)]), ("if", [I(1)]), ("export", [S(P1)]), ("fill", [I(1), I(2)]))]
KINDS = [El(k.lines + ([L("endif")] if k.lines[0].op == "if" else []), k.once) for k in KINDS] + \
    [equ(P1, STR("ab")), equ(P1, I(-1)), equ(P1, ("flt", 1.5)), equ(P1, R("x")), equ("P1", I(3)), ref("P1"), ref(P1), El([N]), El([L("macro", label="mm"), L("fdb", S(P1), label=P1), L("endm"), L("mm")], once=(P1,)), El([L("include", STR("i.s"))], once=(P1,)), El([L("if", I(0)), L("equ", I(8), label=P1), L("endif")])]
SETS = [sset(P1, I(1)), sset(P1, I(2)), sset(P1, B("+", S(P1), I(1)), (P1,)), sset(P1, PC), ref(P1), sset(Q1, S(P1), (P1,)), sset(Q1, B("*", S(Q1), I(2)), (Q1,)), ref(Q1), equ("r1", S(P1), (P1,)), El([L("fdb", S("r1"))]), El([L("fdb", S("later"))]), El([L("lda", S(P1))], refs=(P1,)),
        El([L("if", B("==", S(P1), I(2))), L("set", I(9), label=P1), L("endif")], refs=(P1,)), El([L("org", I(0x300)), N])]
SETX = [sset(P1, I(1)), sset(P1, B("+", S(P1), I(3)), (P1,)), ref(P1), El([L("inc")], refs=(P1,)), El([L("show")], refs=(P1,)), El([L("section", STR("s2"))]), El([L("code")]), El([L("include", STR("j.s"))], sets=(P1,)), El([L("if", S(P1)), L("set", B("-", S(P1), I(1)), label=P1), L("else"), L("set", I(100), label=P1), L("endif")], refs=(P1,)), sset(P1, STR("A")), sset(P1, ("flt", 2.5)), El([L("rmb", S(P1))], refs=(P1,)), El([L("lda", I(0), R("x")), L("ldb", S(P1), R("x"))], refs=(P1,))] + \
    [sset(P1, R("x")), sset(P1, R("y")), sset(P1, R("a")), El([L("tfr", R("d"), S(P1))], refs=(P1,)), sset(P1, S("ks"))]
SETT = [sset(P1, R("x")), sset(P1, R("u")), sset(P1, R("b")), sset(P1, I(1)), sset(P1, I(3)), sset(P1, ("flt", 3.0)), sset(P1, ("flt", 2.5)), sset(P1, STR("A")), sset(P1, STR("text")), sset(P1, S("ks")), sset(P1, S("kr")), sset(P1, S("kf")), sset(P1, PC), sset(P1, S(P1), (P1,)), sset(Q1, S(P1), (P1,)), El([L("tfr", R("d"), S(P1))], refs=(P1,)), ref(P1), ref(P1, "fcb"), ref(P1, "fcc"), ref(Q1, "fcc"), El([L("lda", I(5), S(P1))], refs=(P1,)), El([L("pshs", S(P1))], refs=(P1,)), El([L("fcb", P("#", S(P1))), L("lda", P("#", S(P1)))], refs=(P1,))]
MACS = [L("macro", label="inc"), L("set", B("+", S(P1), I(1)), label=P1), L("endm"), L("macro", label="show"), L("fdb", S(P1)), L("endm")]
INC = {"i.s": [L("equ", I(0x66), label=P1)], "j.s": [L("set", I(0x44), label=P1), L("fdb", S(P1))]}
DEFS = [(), ((P1, None),), ((P1, 0),), ((P1, -2),), ((P1, 65535), (Q1, 3)), ((P1, 1), (P1, 1)), ((P1, None), (P1, 2)), (("zz", 4),)]


def specified(els, defs):
    """SET symbols are defined by SET alone and referred to only after the first assignment."""
    sets = set(n for e in els for n in e.sets)
    if not sets:
        return True
    if sets & (set(n for e in els for n in e.once) | set(n for n, v in defs)):
        return False
    seen = set()
    for e in els:
        for n in e.refs:
            if n in sets and n not in seen:
                return False
        seen |= set(e.sets)
    return True


def walk(w, arg):
    alpha, n, head, tail, defs, what = arg
    for s in w.mine(seqs(alpha, n)):
        for d in defs:
            if not specified(s, d):
                continue
            p = head + cat([e.lines for e in s]) + tail
            if any(l.lop == "include" for l in p):
                check_prog(w, dict({"a.s": p}, **INC), what=what, defines=d)
            else:
                check_prog(w, p, what=what, defines=d)


def late():
    """Definitions that conditions select in the first, second or third pass and all later ones."""
    defs = ([L("equ", I(7), label=P1)], [L("equ", I(8), label=P1)], [L("fcb", I(1), label=P1)], [Line(P1)], [L("equ", S(Q1), label=P1)], [L("equ", I(9), label=Q1)], [L("def")], [L("include", STR("i.s"))])
    out = []
    for f in ("f1", "f2", "f3"):
        for d in defs:
            out.append([L("if", S(f))] + d + [L("endif")])
        out.append([L("if", S(f)), L("equ", I(7), label=P1), L("else"), L("equ", I(8), label=P1), L("endif")])
        out.append([L("if", B("==", S(f), I(0))), N, L("else"), L("equ", I(6), label=P1), L("endif")])
    return [El(x) for x in out + [[L("equ", I(7), label=P1)], [L("fdb", S(P1))], [L("if", S(P1)), N, L("endif")], [L("fdb", S(Q1))]]]


LATEH = [L("macro", label="def"), L("equ", I(7), label=P1), L("endm")]
LATET = [L("equ", S("f2"), label="f1"), L("equ", S("f3"), label="f2"), L("equ", I(1), label="f3")]


def many(w, arg):
    """Numbers of symbols around the sizes of the table; names with equal hashes."""
    top = [2048, 4096, 5000] + ([20000] if DEEP else [])
    for n in w.mine(list(range(1, 140)) + [255, 256, 257, 511, 512, 513, 700, 1000, 1024] + top):
        nm = ["n%d" % i for i in range(n)]
        for how in range(4):
            if how == 0:
                p = [L("equ", I(i), label=m) for i, m in enumerate(nm)] + [L("fdb", S(m)) for m in nm]
            elif how == 1:
                p = [L("fdb", S(m)) for m in nm] + [L("equ", I(i), label=m) for i, m in enumerate(nm)]
            elif how == 2:
                p = [L("fcb", I(i & 255), label=m) for i, m in enumerate(nm)] + [L("fdb", S(m)) for m in reversed(nm)]
            else:
                p = [L("set", I(i), label=m) for i, m in enumerate(nm)] + [L("set", B("+", S(m), I(1)), label=m) for m in reversed(nm)] + [L("fdb", S(m)) for m in nm]
            check_prog(w, p, what="%d symbols" % n)
            if n < 140 or DEEP:
                check_prog(w, p + [L("equ", I(0), label=nm[n // 2])] if how < 3 else p + [L("fcb", S("n%d" % n))], what="%d symbols and an error" % n)
    for k in w.mine(range(1, 8 if DEEP else 7)):
        # h * 33 + c: "ab" and "bA" collide
        nm = ["h" + "".join(t) for t in itertools.product(("ab", "bA"), repeat=k)]
        for order in (nm, nm[::-1]):
            check_prog(w, [L("equ", I(i), label=m) for i, m in enumerate(order)] + [L("fdb", S(m)) for m in nm], what="colliding names")
            check_prog(w, [L("fdb", S(m)) for m in nm] + [L("fcb", I(i), label=m) for i, m in enumerate(order)], what="colliding names")
            check_prog(w, [L("set", I(i), label=m) for i, m in enumerate(order)] + [L("set", B("+", S(m), I(1)), label=m) for m in nm] + [L("fdb", S(m)) for m in nm], what="colliding names")
        for i, m in enumerate(nm):
            check_prog(w, [L("equ", I(j), label=x) for j, x in enumerate(nm)] + [L("equ", I(5), label=m)], what="colliding names, one twice")
            check_prog(w, [L("equ", I(j), label=x) for j, x in enumerate(nm) if j != i] + [L("fdb", S(m))], what="colliding names, one undefined")


def alike(w, arg):
    """Names that differ in one character only, at any position of any length; and in length only."""
    ls = list(range(1, 71)) + [99, 100, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096]
    for n in w.mine(ls):
        base = ("abcdefghijklmnopqrstuvwzABCDEFGHIJ_.0123456789" * (n // 40 + 1))[:n]
        base = "n" + base[1:]
        for k in sorted(set([0, 1, n // 2, n - 2, n - 1] + (list(range(n)) if n < 71 else [31, 32, 33, 63, 64, 65, 127, 128, 255, 256]))):
            if not 0 <= k <= n:
                continue
            other = base[:k] + ("m" if k == 0 else "Z") + base[k + 1:] if k < n else base
            for o in {other, base[:k], base + "q", base[:k] + base[k:].swapcase()} - {base, ""}:
                if o.lower() in ("n", "m"):
                    o += "m9"
                check_prog(w, [L("equ", I(1), label=base), L("equ", I(2), label=o), L("fcb", S(base), S(o))], what="names alike")
                check_prog(w, [L("fdb", S(o), S(base)), Line(o), L("nop", label=base), L("set", I(4), label=base + "k"), L("set", I(5), label=o + "k"), L("fcb", S(base + "k"), S(o + "k"))], what="names alike")
                check_prog(w, [L("equ", I(1), label=base), L("fcb", S(o))], what="name alike undefined")
                check_prog(w, [L("fdb", S(base), S(o))], what="names defined by option", defines=((base, 3), (o, -4)))
                check_prog(w, [L("macro", label=base), L("fcb", I(7)), L("endm"), L("macro", label=o), L("fcb", I(8)), L("endm"), L(o), L(base), L("section", STR(base)), L("nop"), L("section", STR(o)), L("fdb", PC), L("export", S(base)), L("equ", I(4), label=base)], what="macros and sections named alike")


def options(w, arg):
    """--define in every notation and place."""
    vals = list(range(-300, 301)) + [1 << k for k in range(9, 17)] + [(1 << k) - 1 for k in range(9, 17)] + [-(1 << k) for k in range(9, 16)]
    if DEEP:
        vals = list(range(-4096, 65536, 3))
    cases = []
    for v in vals:
        a, m = abs(v), "-" if v < 0 else ""
        cases += [("%s%d" % (m, a), v), ("%s$%x" % (m, a), v), ("%s$%X" % (m, a), v), ("%s0x%x" % (m, a), v), ("%s@%o" % (m, a), v), ("%s%%%s" % (m, bin(a)[2:]), v), ("%s0b%s" % (m, bin(a)[2:]), v)]
    bad = ["", "foo", "1x", "$", "$g", "@8", "%2", "0x", "0b2", "1 2", "1.5", "--1", "+1", "\"a\"", "'a", "1,2", " ", "p2", "(1)", "1+1", "-", "$-", "1-", "0xg", "0b"]

    def one(opt, src, want, what):
        a = opt + ["-o", "o", "-s", "s", "a.s"]
        r = w.run(a, {"a.s": src}, ["o", "s"])
        got = r.files.get("o") if r.ok else None
        w.stats.outcome(what + ("" if want is not None else " rejected"))
        w.stats.state((tuple(opt), want))
        w.stats.transitions += 1
        if got != want or (want is None and not (r.failed and r.err.strip())):
            w.bad("%s: %s" % (what, opt), a, {"a.s": src}, "exit 1" if want is None else want.hex(), r.status() + " " + r.err[:200] + (got or b"").hex(), recheck=lambda: w.run(a, {"a.s": src}, ["o", "s"]).key() == r.key())
    src = " fqb p1\n"
    for t, v in w.mine(cases):
        b = (v & 0xffffffff).to_bytes(4, "big")
        for form in (["-d", "p1=" + t], ["-dp1=" + t], ["--define", "p1=" + t], ["--define=p1=" + t]):
            one(form, src, b, "define")
        one(["-d", "p1=" + t, "-d", "p1=" + t], src, None, "define twice")
        one(["-d", "p1=" + t, "-d", "P1=9"], src, b, "define in other case")
        one(["-d", "p1=" + t], src + "p1 equ 5\n", None, "define and EQU")
        one(["-d", "p1=" + t], "p1 fqb p1\n", None, "define and label")
    for t in w.mine(bad):
        for form in (["-d", "p1=" + t], ["--define=p1=" + t]):
            one(form, " nop\n", None, "define malformed")
    for n in w.mine(["p1", "_a", "a.b", "Long_name.with2" * 10, "e1"]):
        for form in (["-d", n], ["-d" + n], ["--define", n], ["--define=" + n]):
            one(form, " fdb %s\n" % n, b"\0\1", "define without value")
            one(form, " fdb 1\n if %s\n fcb 5\n endif\n" % n, b"\0\1\5", "define without value")
            one(form, " fdb %s\n" % n[:-1], None, "define of another name")
    # after and among the files, and any number of definitions
    for n in w.mine(range(1, 70)):
        o = cat([["-d", "n%d=%d" % (i, i * 3)] for i in range(n)])
        s = "".join(" fdb n%d\n" % i for i in range(n))
        b = b"".join((i * 3).to_bytes(2, "big") for i in range(n))
        one(o, s, b, "many definitions")
        one(o + ["-d", "n%d" % (n // 2)], s, None, "one of many twice")


def surrounded(w, arg):
    """Short histories of binding in every kind of surroundings."""
    for al, hd, tl in ((BIND, [], []), (KINDS, [], []), (SETS, [], [L("fcb", I(1), label="later")]), (SETX, MACS + [L("equ", STR("B"), label="ks"), L("set", I(5), label=P1)], []), (SETT, [L("equ", STR("ks"), label="ks"), L("equ", R("y"), label="kr"), L("equ", ("flt", 9.25), label="kf")], [])):
        surround(w, (hd + cat([e.lines for e in s]) + tl for s in seqs(al, 3 if DEEP else 2) if specified(s, ())), "binding", extra=INC)


def main():
    c = Check("C23")
    D = 4 if DEEP else 3
    jobs = [(BIND, D + 1 if DEEP else 4, [], [], DEFS[:1], "binding"), (BIND, 2 if not DEEP else 3, [], [], DEFS, "binding with --define"), (BIND, 2 if not DEEP else 3, [L("org", I(0x1000)), L("fdb", S(P1), S(Q1))], [L("lda", S("far")), L("equ", I(5), label="far")], DEFS[:3], "binding over passes"),
            (BIND[2:9] + KINDS, D, [], [], DEFS[:2], "ways to bind"), (KINDS, 2, [L("lda", S("far"))], [L("fcb", S(P1)), L("equ", I(5), label="far")], DEFS[:2], "ways to bind over passes"),
            (SETS, 5 if DEEP else 4, [], [], DEFS[:1], "SET"), (SETS, 4 if DEEP else 3, [L("lda", S("far")), L("set", I(3), label=P1)], [L("fdb", S(P1)), L("fcb", I(1), label="later"), L("equ", I(5), label="far")], (DEFS[0], DEFS[7]), "SET over passes"),
            (SETX, 4 if DEEP else 3, MACS + [L("equ", STR("B"), label="ks"), L("set", I(5), label=P1)], [L("fdb", S(P1)), L("lda", S("far")), L("equ", I(5), label="far")], DEFS[:1], "SET in macros and files"),
            (SETT, 4 if DEEP else 3, [L("equ", STR("ks"), label="ks"), L("equ", R("y"), label="kr"), L("equ", ("flt", 9.25), label="kf")], [], DEFS[:1], "SET to values of each type"), (SETT, 2, [L("lda", S("far")), L("equ", S("kz"), label="ks"), L("equ", R("y"), label="kr"), L("equ", ("flt", 9.25), label="kf"), L("set", I(9), label=P1)], [L("fcb", S("ks")), L("equ", I(4), label="kz"), L("equ", I(5), label="far")], DEFS[:1], "SET to values of each type over passes")]
    jobs += [(late(), 3 if DEEP else 2, LATEH, LATET, DEFS[:7], "definitions that take effect in a later pass")]
    for j in jobs:
        c.explore(walk, j)
    c.explore(many)
    c.explore(alike)
    c.explore(options)
    c.bounds = ["%s: all sequences of up to %d of %d operations, %d sets of --define" % (j[5], j[1], len(j[0]), len(j[4])) for j in jobs] + ["1-%d symbols; all names over colliding pairs up to 2^%d" % (20000 if DEEP else 5000, 7 if DEEP else 6), "names of up to 4096 characters that differ in one character at any position, or in length", "%s values x 7 notations x 4 spellings of --define; 25 malformed values" % ("23211" if DEEP else "about 620")]
    c.assumptions = ["a symbol assigned by SET is not also defined otherwise, nor referred to before its first assignment: other uses are undocumented and skipped"]
    c.explore(surrounded)
    c.bounds.append(CTX % "all pairs of binding operations")
    c.finish()
