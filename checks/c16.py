"""C16: a successful result is a fixed point."""
import itertools
import isa as ISA
import refasm as RA
from common import check_prog, expectation, observed, opt_args, parse_symbols, reference, show
from explore import *
from refasm import L, I, S, STR, B, U, T, A, ID, PC, P, R, V, EMPTY, Line
from contexts import CTX, surround
from run import Check, TIER

DEEP = TIER == "thorough"


def subst(a, sy):
    """Argument with every symbol replaced by its value."""
    if a[0] == "sym":
        v = sy.get(a[1])
        if v is None:
            return a
        return I(v) if isinstance(v, int) else STR(v) if isinstance(v, str) else ("flt", v) if v >= 0 else U("-", ("flt", -v))
    return tuple(subst(x, sy) if isinstance(x, tuple) and x and isinstance(x[0], str) else tuple(subst(y, sy) if isinstance(y, tuple) else y for y in x) if isinstance(x, tuple) else x for x in a)


NOSUB = ("equ", "set", "macro", "endm", "export", "section", "include", "includebin")


def both(w, prog, what, lit=True, **kw):
    """Against the reference; then with every reference replaced by the value reported for it: the same code."""
    ref = check_prog(w, prog, what=what, isa=3, **kw)
    if ref is None or not ref.ok or not lit:
        return
    sy = {k: v for k, v in ref.symbols.items() if isinstance(v, int) and not any(l.lop == "set" and l.label == k for l in prog)}
    args = opt_args(dict(kw, isa=3)) + ["-q", "-S", "-o", "o", "a.s"]
    p2 = [l if l.lop in NOSUB else Line(l.label, l.op, [subst(x, sy) for x in l.args]) for l in prog]
    t2 = RA.text(p2)
    r2 = w.run(args, {"a.s": t2}, ["o"])
    e = expectation(ref, False)
    if observed(r2, False) != e:
        w.bad("%s: with values in place of references: %s" % (what, " / ".join(RA.text(prog).split("\n"))[:300]), args, {"a.s": t2}, show(e), show(observed(r2, False)) + r2.err[:200],
              recheck=lambda: w.run(args, {"a.s": t2}, ["o"]).key() == r2.key())


def neg(e):
    return U("-", e)


# what can be done with a target; each returns lines with a label
OPS = [lambda t, n: [L("lda", t, label=n)], lambda t, n: [L("leax", t, R("pcr"), label=n)], lambda t, n: [L("lda", t, R("x"), label=n)], lambda t, n: [L("bra", t, label=n)],
       lambda t, n: [L("lbra", t, label=n)], lambda t, n: [L("rmb", B("&", t, I(7)), label=n)], lambda t, n: [L("if", B(">", t, I(0x82))), L("fcb", I(1), I(2)), L("endif"), Line(n)],
       lambda t, n: [L("equ", B("+", t, I(1)), label=n)], lambda t, n: [L("lda", ("list", (t, R("pcr"))), label=n)], lambda t, n: [L("fdb", t, label=n)], lambda t, n: [L("rmb", B("-", I(0x88), t), label=n)]]
FIX = [[L("rmb", I(125), )], [L("rmb", I(126))], [L("align", I(128))], [L("fcb", I(9))]]


def mutual(w, arg):
    """Every program of n instructions, each referring to any of their labels."""
    nops, n, orgs = arg
    items = [(o, t) for o in range(nops) for t in range(n)] + [(None, f) for f in range(len(FIX))]
    for seq in w.mine(itertools.product(items, repeat=n)):
        if sum(1 for o, t in seq if o is not None) < 2:
            continue
        body = []
        for i, (o, t) in enumerate(seq):
            if o is None:
                body += [Line("t%d" % i)] + FIX[t]
            else:
                body += OPS[o](S("t%d" % t), "t%d" % i)
        for g in orgs:
            both(w, [L("org", I(g)), L("setdp", I(0))] + body, "mutual references", lit=not any(o == 7 for o, t in seq))


def edges(w, arg):
    """Two or three references across every distance near the limits of a size."""
    forms = [lambda t: [L("lda", t)], lambda t: [L("leax", t, R("pcr"))], lambda t: [L("lda", t, R("x"))], lambda t: [L("bra", t)], lambda t: [L("lda", ("list", (t, R("pcr"))))], lambda t: [L("ldx", t)],
             lambda t: [L("lda", B("-", t, PC), R("y"))], lambda t: [L("leay", P("<", t), R("pcr"))], lambda t: [L("lda", P("<", t))], lambda t: [L("ldq", t)], lambda t: [L("fcb", B("-", t, PC))], lambda t: [L("lda", P("#", B("&", t, I(255))))], lambda t: [L("tim", P("#", I(1)), t)]]
    for f, g, k in w.mine(itertools.product(range(len(forms)), range(len(forms)), list(range(0, 20)) + list(range(112, 136)))):
        for o in (0, 0x70, 0x100, 0x8000):
            F_, G = forms[f], forms[g]
            p = [L("org", I(o)), L("setdp", I(o >> 8))] + [Line("st")] + F_(S("fw")) + G(S("fw")) + [L("rmb", I(k))] + [Line("fw")] + G(S("st")) + [L("fdb", S("st"), S("fw"), S("en")), Line("en")]
            both(w, p, "edge")
            p = [L("org", I(o)), L("setdp", I(o >> 8))] + F_(S("f1")) + G(S("f2")) + [L("rmb", I(k)), Line("f1")] + F_(S("f2")) + [L("rmb", I(3)), Line("f2"), L("fdb", B("-", S("f2"), S("f1")))]
            both(w, p, "edge, two targets")


def chains(w, arg):
    """Chains of EQUs in every order, with every number of passes allowed."""
    for n in range(1, 6):
        for perm in w.mine(itertools.permutations(range(n))):
            defs = [L("equ", B("+", S("c%d" % (i + 1)), I(1)) if i + 1 < n else I(0x10), label="c%d" % i) for i in perm]
            for mp in (2, 3, 4, 5, 6, 7, 12):
                both(w, [L("org", I(0x100)), L("fdb", S("c0"))] + defs + [L("lda", S("c0"), R("x"))], "chain", max_passes=mp)
                both(w, [L("org", S("c0")), L("fdb", PC)] + defs, "chain to ORG", max_passes=mp)
                both(w, [L("rmb", S("c0")), L("fdb", PC, label="zz")] + defs + [L("section", STR("sa")), L("fdb", S("zz"))], "chain to RMB", max_passes=mp)
    for n in w.mine(range(1, 24)):
        for mp in [2, 3, 11, 12, 13, 20, 30, 255]:
            for rev in (0, 1):
                c = [L("equ", B("+", S("c%d" % (i + 1)), I(1)), label="c%d" % i) for i in range(n)] + [L("equ", I(5), label="c%d" % n)]
                p = [L("fdb", S("c0"))] + (c[::-1] if rev else c)
                both(w, p, "long chain", max_passes=mp)
                both(w, [L("fcb", S("c0"))] + (c[::-1] if rev else c) + [L("section", STR("sa")), L("org", S("c0")), L("fdb", PC, label="xx"), L("code"), L("fdb", S("xx"))], "long chain", max_passes=mp)
    # lines whose size shrinks one after another
    for n in w.mine(range(1, 16)):
        for base in range(0x60, 0x80, 3):
            for mp in (2, 5, 12, 60):
                p = [L("org", I(base)), L("setdp", I(0))]
                for i in range(n):
                    p += [L("lda", S("t%d" % i))]
                for i in range(n):
                    p += [L("rmb", I(2)), Line("t%d" % i), L("leax", S("t%d" % (n - 1 - i)), R("pcr"))]
                both(w, p, "cascade", max_passes=mp)
                p = [L("org", I(0x100))]
                for i in range(n):
                    p += [L("leax", S("t%d" % i), R("pcr")), L("rmb", I(120 // n))]
                for i in range(n):
                    p += [Line("t%d" % i), L("rmb", I(1))]
                both(w, p, "cascade", max_passes=mp)


def limits(w, arg):
    """Every value of --max-passes, against programs that need 1, 2, .. passes."""
    ps = []
    for n in (0, 1, 2, 5, 9, 14, 30, 60, 63, 64, 65, 100, 125, 126, 127, 128, 129, 130, 200, 250, 251, 252, 253, 254, 255):
        ps.append([L("fdb", S("c0"))] + [L("equ", B("+", S("c%d" % (i + 1)), I(1)), label="c%d" % i) for i in range(n)] + [L("equ", I(5), label="c%d" % n)])
    ps.append([L("if", B("==", S("fl"), I(0))), L("equ", I(1), label="fw"), L("endif"), L("fcb", I(1)), L("equ", S("fw"), label="fl")])
    for mp, p in w.mine(itertools.product(range(2, 256), ps)):
        # around what is needed, and for short programs everything
        if len(p) < 20 or abs(mp - len(p)) < 6 or mp in (2, 3, 12, 127, 128, 129, 255):
            check_prog(w, p, what="max-passes", isa=3, max_passes=mp)


def settle(w, n):
    """Lines whose intermediate values may be out of range or inconsistent; programs that never settle."""
    fw = S("fw")
    al = [[L("rmb", B("-", fw, I(0x110)))], [L("fill", I(1), B("-", fw, I(0x110)))], [L("align", B("-", fw, I(0x100)))], [L("org", B("+", fw, I(0x20)))], [L("put", B("+", fw, I(0x1000)))], [L("setdp", B(">>", fw, I(8)))], [L("lda", fw)],
          [L("fcb", B("-", fw, I(0x100)))], [L("if", fw), L("nop"), L("endif")], [L("if", B("==", fw, I(0x120))), L("nop"), L("else"), L("fcb", I(1), I(2)), L("endif")], [L("if", B("<", fw, I(0x108))), L("rmb", I(16)), L("endif")],
          [L("section", STR("sa")), L("lda", fw), L("code")], [L("bra", fw)], [L("equ", B("+", fw, I(1)), label="ff")], [L("lda", S("ff"))], [L("mm", fw)], [L("if", S("ff")), Line("gg"), L("endif")], [L("fdb", S("gg"))], [L("rmb", I(100))],
          [L("leax", fw, R("pcr"))], [L("set", B("+", S("sv"), B("-", fw, PC)), label="sv"), L("fdb", S("sv"))], [L("fdb", B("/", I(0x1000), B("-", fw, I(0x100))))], [L("fdb", B("%", I(0x1000), B("-", fw, I(0x100))))], [Line(1), L("bra", ("f", 1))], [L("lda", P("#", B("-", fw, I(0x100))))]]
    head = [L("macro", label="mm"), L("leay", A(1), R("pcr")), L("if", B(">", A(1), I(0x110))), L("nop"), L("endif"), L("endm"), L("set", I(0), label="sv"), L("org", I(0x100)), L("setdp", I(1))]
    for s in w.mine(seqs(range(len(al)), n)):
        body = cat([al[i] for i in s])
        for mp in (12,) if len(s) > 2 else (2, 3, 12, 40):
            both(w, head + body + [L("nop", label="fw"), L("nop", label=1)], "settling", lit=False, max_passes=mp)
        if len(s) < 3:
            both(w, head + body + [L("section", STR("sb")), L("org", I(0x118)), L("nop", label="fw"), L("section", STR("sc")), L("nop", label=1), L("code"), L("fdb", PC), L("nop", label=1)], "settling in sections", lit=False)


def ends(w, n):
    """Sections whose end moves between passes by any power of two, and what follows them."""
    late = S("late")
    al = [[L("org", late)], [L("put", late)], [L("put", I(0))], [L("rmb", late)], [L("org", B("+", late, PC))], [L("fcb", I(1))], [L("org", I(0x40))], [L("align", I(256))]]
    vs = [0, 1, 2] + [1 << b for b in range(2, 15)] + [0x300, 0x1800, 0x8000, 0xfff0]
    fol = [[L("section", STR("two")), L("fdb", PC, label="va"), L("section", STR("three")), L("fdb", S("va"), label="vb")], [L("section", STR("two")), Line("va"), L("section", STR("three")), L("lda", S("va")), L("section", STR("four")), L("fdb", PC, S("va"))]]
    for s, v in w.mine(itertools.product(seqs(range(len(al)), n), vs)):
        if not {0, 1, 3, 4} & set(s):
            continue
        for f in fol:
            for ch in (0, 2):
                d = [L("equ", S("late%d" % i), label="late%s" % (i - 1 or "")) for i in range(1, ch + 1)] + [L("equ", I(v), label="late%s" % (ch or ""))]
                both(w, [L("setdp", I(0))] + cat([al[i] for i in s]) + f + d, "section end that moves", lit=False)


def locals_(w, n):
    """Local labels of any number that move between passes while what follows them stays."""
    late = S("late")
    for k in w.mine([0, 1, 2, 9, 10, 11, 99, 100, 255, 256, 65535, 65536, 1 << 31, 1 << 32]):
        al = [[L("fdb", ("f", k))], [L("fdb", ("b", k))], [L("nop", label=k)], [L("lda", late)], [L("lda", ("f", k))], [L("align", I(16), I(0))], [L("org", I(0x180))], [L("equ", ("f", k), label="ek")], [L("rmb", late)]]
        for s in seqs(range(len(al)), n, 2):
            if 2 not in s or not ({3, 4, 8} & set(s)) or s.count(7) > 1:
                continue
            both(w, [L("org", I(0x80)), L("setdp", I(0)), L("nop", label=k)] + cat([al[i] for i in s]) + [L("align", I(64), I(1)), L("nop", label=k), L("equ", I(1), label="late")], "local labels", lit=False)


def sections(w, n):
    """Section ends: code that moves between passes, sections that follow others."""
    al = [[L("section", STR("sa"))], [L("section", STR("sb"))], [L("code")], [L("lda", S("x1"))], [L("leax", S("x2"), R("pcr"))], [Line("x1")], [L("nop", label="x2")], [L("org", S("x1"))], [L("rmb", B("&", S("x2"), I(15)))], [L("fdb", PC, S("x1"), S("x2"))], [L("put", S("x2"))]]
    for s in w.mine(seqs(range(len(al)), n, 2)):
        if 5 not in s and 6 not in s:
            continue
        both(w, [L("org", I(0x80)), L("setdp", I(0))] + cat([al[i] for i in s]), "sections")


def nf(v):
    return v if isinstance(v, tuple) else I(v) if isinstance(v, int) and v >= 0 else neg(I(-v)) if isinstance(v, int) else ("flt", v)


def deltas(w, arg):
    """A value that differs between passes, by any amount or in type only, and what is derived from it before it is known."""
    iv = [0, 1, 2, 3, 127, 128, 255, 256, 257, 65535, 65536, 65537, -1, -256, -65536, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 33, 1 << 53, (1 << 53) + 1, 1 << 62, (1 << 62) + 256, -(1 << 32), 0x12345678, 0x112345678]
    fv = [0.0, 0.5, 1.0, 1.5, 256.0, 65536.5, 4294967296.0, 3.0000000000000004, 3.0, 1e-9, 0.25]
    sv = [STR(x) for x in ("A", "B", "a", "AB", "AC", "BB", "abcde", "abcdf", "Bbcde", "AB ", "\x7f", "A\nB")]
    vals = [nf(x) for x in iv + fv] + sv
    q = S("q2")
    forms = [lambda n: [L("fqb", S("q1"), B(">>", S("q1"), I(32))), L("equ", q, label="q1")],
             lambda n: [L("fqb", S("q0")), L("equ", S("q1"), label="q0"), L("equ", q, label="q1")],
             lambda n: [L("fcb", S("q1")), L("fqb", B("*", B("-", S("q1"), I(1)), I(1 << 30))), L("equ", B("+", B("/", q, I(1 << 30)), I(1)), label="q1")],
             lambda n: [L("fdb", S("q1"), B(">>", S("q1"), I(16))), L("equ", B("<<", q, I(16)), label="q1")],
             lambda n: [L("fqb", S("q0"), B(">>", S("q0"), I(32))), L("equ", B("*", S("q1"), I(3)), label="q0"), L("equ", B("<<", q, I(8)), label="q1")],
             lambda n: [L("lda", P("#", B("&", S("q1"), I(255)))), L("equ", B("+", q, I(1)), label="q1")],
             lambda n: [L("fcc", S("q1"), I(0)), L("equ", q, label="q1")],
             lambda n: [L("fcc", S("q0"), I(0)), L("equ", S("q1"), label="q0"), L("equ", q, label="q1")],
             lambda n: [L("if", B("==", S("q1"), n)), L("fcb", I(1)), L("else"), L("fcb", I(2)), L("endif"), L("equ", q, label="q1")],
             lambda n: [L("org", B("&", S("q1"), I(0xfff))), L("fdb", PC), L("equ", q, label="q1")],
             lambda n: [L("mm", S("q0")), L("equ", S("q1"), label="q0"), L("equ", q, label="q1")],
             lambda n: [L("section", STR("zz")), L("lda", S("q1"), R("x")), L("code"), L("equ", B("&", q, I(0x1ff)), label="q1")]]
    mm = [L("macro", label="mm"), L("fqb", A(1), B(">>", A(1), I(16))), L("fcb", A(1)), L("endm")]
    for (k, f), a, b in w.mine(itertools.product(enumerate(forms), vals, vals)):
        if a == b or not DEEP and k > 8 and (a[0] == "str") != (b[0] == "str"):
            continue
        p = mm + f(b) + [L("if", S("q3")), L("equ", b, label="q2"), L("else"), L("equ", a, label="q2"), L("endif"), L("equ", I(1), label="q3")]
        for mp in (12,) if not DEEP else (3, 4, 5, 12):
            both(w, p, "value that changes", lit=False, max_passes=mp)

    regs = [R(r, m) for r in ("x", "y", "u") for m in ("", "+", "++", "-", "--")] + [R("a"), R("pcr"), R("w", "++"), R("w"), I(5), I(0)]
    for a, b, k in w.mine(itertools.product(regs, regs, range(1, 4))):
        for use in ([L("lda", EMPTY, S("q0"))], [L("ldx", ("list", (I(0) if False else EMPTY, S("q0"))))], [L("lda", S("q0"), R("x"))], [L("tfr", S("q0"), R("y"))], [L("tfm", S("q0"), R("y", "+"))], [L("mx", S("q0"))]):
            p = [L("macro", label="mx"), L("lda", EMPTY, A(1)), L("endm")] + use + [L("equ", S("q%d" % (i + 1)), label="q%d" % i) for i in range(k)] + \
                [L("if", S("qf")), L("equ", b, label="q%d" % k), L("else"), L("equ", a, label="q%d" % k), L("endif"), L("equ", I(1), label="qf")]
            both(w, p, "register that changes", lit=False)


REGUSE = [lambda t: [L("pshs", t)], lambda t: [L("pulu", t)], lambda t: [L("pshu", R("a"), t)], lambda t: [L("pulu", t, R("cc"), R("pc"))], lambda t: [L("tfr", t, R("d"))], lambda t: [L("tfr", R("d"), t)], lambda t: [L("exg", R("a"), t)],
          lambda t: [L("lda", EMPTY, t)], lambda t: [L("lda", I(5), t)], lambda t: [L("lda", t, R("x"))], lambda t: [L("lda", ("list", (EMPTY, t)))], lambda t: [L("ldq", ("list", (I(300), t)))], lambda t: [L("tfm", t, R("y", "+"))], lambda t: [L("tfm", R("x", "-"), t)],
          lambda t: [L("tfm", t, t)], lambda t: [L("band", t, I(1), I(2), I(0x40))], lambda t: [L("stbt", t, I(7), I(0), P("<", I(0x41)))], lambda t: [L("addr", t, R("x"))], lambda t: [L("cmpr", R("w"), t)], lambda t: [L("lda", P("#", t))], lambda t: [L("lda", t)], lambda t: [L("leax", I(-1), t)], lambda t: [L("fcb", t)],
          lambda t: [L("mr", t)], lambda t: [L("mr", R("y"), t)]]


def registers(w, arg):
    """Every use of a register given by a symbol that is defined before, after, or through others; and what follows."""
    regs = [R(r, m) for r in ("x", "y", "u", "s", "d", "w", "a") for m in ("", "+", "++", "-", "--")] + [R(r) for r in ("pc", "pcr", "b", "cc", "dp", "e", "f", "v", "q")] + [I(0), I(1), I(3), I(5), I(-1), STR("x"), STR("a"), ("flt", 2.0)]
    mac = [L("macro", label="mr"), L("pshs", A(1)), L("lda", EMPTY, A(1)), L("if", A(2)), L("tfr", A(2), A(1)), L("endif"), L("endm")]
    for u, r in w.mine(itertools.product(range(len(REGUSE)), regs)):
        use = REGUSE[u]
        for before in (0, 1):
            for k in (0, 1, 2) if not DEEP else range(5):
                d = [L("equ", S("qr%d" % (i + 1)), label="qr%d" % i) for i in range(k)] + [L("equ", r, label="qr%d" % k)]
                if before:
                    d = d[::-1]
                for mp in (2, 3, 12) if k and not before else (12,):
                    b = use(S("qr0")) + [L("fdb", PC, S("la"), label="la")]
                    both(w, mac + [L("org", I(0x200))] + (d + b if before else b + d), "register by a symbol", lit=False, max_passes=mp)
                    if DEEP or mp == 12 and k < 2:
                        both(w, mac + [L("section", STR("two"))] + (d if before else []) + use(S("qr0")) + [L("lbra", S("la")), L("section", STR("one")), L("fdb", PC, label="la")] + ([] if before else d), "register by a symbol, in sections", lit=False, max_passes=mp)
        for v in regs[::4]:
            both(w, mac + [L("set", r, label="qr0")] + use(S("qr0")) + [L("set", v, label="qr0")] + use(S("qr0")), "register by SET", lit=False)


def appearing(w, n):
    """Lines that conditions only select from the second, third or fourth pass on, so that nothing else changes then."""
    zn = S("zn")
    g = [[L("rmb", I(0), label=1)], [L("equ", I(0x1234), label="zn")], [L("set", I(5), label="zs")], [L("section", STR("two")), L("fdb", zn), L("code")], [L("section", STR("two")), L("org", I(0x70)), L("code")], [L("setdp", I(0x12))], [L("mm")], [L("org", I(0x60))], [L("put", I(0x90))], [L("end", I(0x33))], [L("lda", zn)], [L("rmb", I(0), label="zn")], [L("equ", S("f3"), label="zk")]]
    refs = [[L("fdb", ("f", 1))], [L("fdb", ("b", 1))], [L("if", zn), L("fcb", I(7)), L("endif")], [L("lda", zn)], [L("fdb", S("zs"))], [L("section", STR("three")), L("fdb", PC), L("code")], [L("fcb", PC)], [L("if", S("zk")), L("org", I(0x55)), L("fcb", I(3)), L("endif")], [L("fdb", zn)], [Line(1)], [L("if", B("==", zn, I(0))), L("fcb", I(8)), L("else"), L("fcb", I(9)), L("endif")], [L("if", zn), L("set", I(6), label="zs"), L("endif")]]
    ch = ["f3", "f2"] + (["f1"] if DEEP else [])
    al = [[L("if", S(f))] + x + [L("endif")] for f in ch for x in g] + refs
    late = set(range(len(ch) * len(g)))
    for s in w.mine(seqs(range(len(al)), n)):
        if len(s) > 1 and (not late & set(s) or not set(s) - late and len(s) > 2):
            continue
        p = [L("macro", label="mm"), Line(1), L("endm"), L("org", I(0x40)), L("setdp", I(0)), L("set", I(1), label="zs"), L("fcb", I(0), label=1)] + cat([al[i] for i in s]) + [L("fcb", I(1), label=1)]
        # no more of the chain than is used, lest its settling cause the pass that is needed
        used = {l.args[0][1] for l in p if l.lop == "if" and l.args[0][0] == "sym"}
        p += ([L("equ", S("f2"), label="f1")] if "f1" in used else []) + ([L("equ", S("f3"), label="f2")] if used & {"f1", "f2"} else []) + [L("equ", I(1), label="f3")]
        for q in (p, p + [L("equ", I(0x1290), label="zn")]) if not any(l.label == "zn" for l in p) else (p,):
            both(w, q, "lines that appear in a later pass", lit=False)


def surrounded(w, arg):
    """Mutual references, in every kind of surroundings."""
    def gen():
        for (o, a), (p, b) in itertools.product([(o, t) for o in range(len(OPS)) for t in range(3)], repeat=2):
            for k in range(len(FIX)) if DEEP else (0, 3):
                yield OPS[o](S("t%d" % a), "t0") + FIX[k] + OPS[p](S("t%d" % b), "t1") + [L("fdb", S("t0"), S("t1"), S("t2"), label="t2")]
    surround(w, gen(), "mutual references", isa=3)


def main():
    c = Check("C16")
    c.bounds = ["every program of 3 lines over %d ways of using any of their labels and 4 spacers%s, at %d origins" % (11 if DEEP else 9, ", and of 4 lines over 5" if DEEP else "", 3 if DEEP else 2), "13 x 13 instruction forms across every distance near size limits at 4 origins",
                "every order of EQU chains of up to 5 and chains of up to 24, with up to 12 --max-passes values; cascades of up to 15 size changes", "every value 2..255 of --max-passes against programs that need 2..255 passes", "every sequence of up to %d of 25 lines that go out of range or change their mind in early passes" % (4 if DEEP else 3),
                "every pair of 49 values (integers, floats, strings) taken by a symbol in successive passes x 12 ways of depending on it; every pair of 21 registers with increments", "25 uses of a register given by a symbol x 52 registers with increments, numbers and strings, defined before, after and through others",
                "every sequence of 2..%d of 11 section and reference lines" % (5 if DEEP else 4), "every sequence of up to %d of 8 lines that move the end of a section by any of 20 amounts" % (4 if DEEP else 3), "local labels of 14 numbers that move: every sequence of 2..%d of 9 lines" % (5 if DEEP else 4), "each successful one also assembled with values in place of references"]
    c.assumptions = ["reference assembler lib/refasm.py repeats passes until nothing changes, at most --max-passes times", "a condition on a symbol not yet defined anywhere counts as zero"]
    c.explore(mutual, (11, 3, (0x70, 0x7c, 0x100)) if DEEP else (9, 3, (0x70, 0x7d)))
    if DEEP:
        c.explore(mutual, (5, 4, (0x78,)))
    for f in (edges, chains, limits, deltas, registers):
        c.explore(f)
    c.explore(settle, 4 if DEEP else 3)
    c.explore(sections, 5 if DEEP else 4)
    c.explore(ends, 4 if DEEP else 3)
    c.explore(locals_, 5 if DEEP else 4)
    c.explore(appearing, 3)
    c.bounds.append("every sequence of up to %d of %d lines, %d of them selected from the second or third%s pass on" % ((3, 51, 39, ", or fourth") if DEEP else (3, 38, 26, "")))
    c.explore(surrounded)
    c.bounds.append(CTX % "every pair of instructions that refer to any of three labels")
    c.finish()
