"""C11: placement."""
import itertools
import refasm as RA
from common import check_prog
from explore import *
from refasm import L, I, S, STR, B, PC, Line
from contexts import CTX, surround
from run import Check, TIER

DEEP = TIER == "thorough"


def lab(l, i):
    return Line("l%d" % i, l.op, l.args)


def prog(ops, every=True):
    """A label on every line, the program counter emitted by the emitting ones."""
    o = []
    for i, l in enumerate(ops):
        if l.lop in ("put", "setdp") or not every:
            o.append(l)
        else:
            o.append(lab(l, i))
    return o


FD, FC = L("fdb", PC), L("fcb", I(0xab))
MAIN = [FD, FC, L("org", I(0x100)), L("org", I(0x180)), L("org", I(0xf0)), L("put", I(0x110)), L("put", I(0x300)), L("rmb", I(1)), L("rmb", I(0x10)), L("align", I(16)),
        L("align", I(8), I(0xee)), L("section", STR("sa")), L("section", STR("sb")), L("code"), L("data"), L("fill", I(0x5a), I(20)), L("org", B("+", PC, I(3))), L("lbra", S("l0")), L("org", I(0))]
SECT = [FD, L("section", STR("sa")), L("section", STR("sb")), L("code"), L("org", I(0x200)), L("rmb", I(4))]
NAMES = [L("code"), L("data"), L("bss"), L("ram"), L("auto"), L("CODE"), L("section", STR("CODE")), L("section", STR("code")), L("section", STR("DATA")), L("section", STR("BSS")), L("section", STR("data")),
         L("section", STR("RAM")), L("section", STR("AUTO")), L("section", STR("a b"))]
OVER = [L("fill", I(1), I(2)), L("fill", I(2), I(3)), L("org", I(0x100)), L("org", I(0x101)), L("org", I(0x102)), L("org", I(0x103)), L("org", I(0x105)), L("put", I(0x102)), L("put", I(0x104)), L("section", STR("sa"))]
GAPS = [FC, L("rmb", I(0)), L("rmb", I(1)), L("rmb", I(0xff)), L("align", I(1)), L("align", I(2)), L("align", I(3), I(7)), L("align", I(256)), L("align", I(7)), L("put", I(0x1000)), L("put", PC)]


def walk(w, arg):
    alpha, n, lo, what = arg
    for s in w.mine(seqs(alpha, n, lo)):
        check_prog(w, prog(s) + [Line("fin")], what=what)


def sections(w, arg):
    """Section names, each visited repeatedly, with sizes settled only in a later pass."""
    for s in w.mine(seqs(range(len(NAMES)), 3, 1)):
        p = [L("org", I(0x400)), FD]
        for k, i in enumerate(s):
            p += [Line("t%d" % k, NAMES[i].op, NAMES[i].args), FD, L("lda", S("fin"), RA.R("pcr")), L("fcb", I(k))]
        check_prog(w, p + [L("code"), Line("fin")], what="section names")
    # sections whose contents change size between passes, followed by others
    body = [L("lda", S("fin"), RA.R("pcr")), L("leax", S("z0"), RA.R("pcr")), L("ldb", S("mid")), FD, L("section", STR("sa")), L("section", STR("sb")), L("code"), L("rmb", S("three")),
            L("org", B("+", PC, S("three"))), L("align", S("three"))]
    for s in w.mine(seqs(range(len(body)), 5 if DEEP else 4)):
        check_prog(w, [L("org", I(0x70))] + prog([body[i] for i in s]) + [Line("mid"), L("section", STR("sb")), L("fcb", I(1), label="z0"), Line("fin"), L("equ", I(3), label="three")], what="changing sizes")


def edges(w, arg):
    """Both ends of memory, negative addresses, counts and alignments of all sizes."""
    ad = [0, 1, 2, 0x7f, 0x80, 0xfe, 0xff, 0x100, 0x7fff, 0x8000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10001, 0x20000, -1, -2, -0x100, -0x8000]
    em = [[FC], [FD], [L("fcb", I(1), I(2), I(3))], [L("rmb", I(1)), FC], [L("rmb", I(2))], [L("align", I(4)), FC], [L("align", I(4), I(9)), FC], [L("fill", I(1), I(0x100))], [L("ldx", RA.P("#", PC))], [L("rzb", I(0))],
          [L("put", I(0x40)), FD], [L("section", STR("q9")), FC], [L("lbra", S("at"))], [L("put", I(-1)), FC], [L("org", B("-", PC, I(1))), FC], [L("fqb", PC)]]
    for a, e in w.mine(itertools.product(ad, em)):
        if a < 0 and e[0].lop == "align":
            continue
        check_prog(w, [L("org", I(a), label="at")] + e + [Line("fin")], what="origin")
        check_prog(w, [L("put", I(a)), L("nop", label="at")] + e + [Line("fin")], what="put")
        check_prog(w, [L("org", I(a), label="at"), L("put", I(0x1000))] + e + [Line("fin")], what="origin and put")
        check_prog(w, [L("org", I(a), label="at"), L("put", I(0x1000))] + e + [Line("fin"), L("put", I(0x1001)), FC], what="overlap by put")
    for n in w.mine(range(0, 300 if DEEP else 140)):
        for a in (0, 1, 2, 3, 7, 15, 16, 17, 255, 0x100, 0x1ff):
            for f in ((), (I(0x77),)):
                check_prog(w, [L("org", I(a)), FC, L("align", I(n), *f, label="x1"), FC, Line("fin")], what="alignment")
        check_prog(w, [FC, L("rmb", I(n)), FC, L("rmb", I(n), label="x1"), FD], what="reserve")
        check_prog(w, [L("org", I(n)), FC, L("org", I(300 - n)), FC, L("put", I(150)), FC], what="order")
    for a in w.mine([0x7fffffff, 0x80000000, 0xffff, 0x10000, 0x8000, -1, 0]):
        for v in (0, 1, 5):
            check_prog(w, [L("org", I(v)), L("align", I(a)), FC], what="large alignment")
            check_prog(w, [L("org", I(v)), L("align", I(a), I(3)), FC], what="large alignment")
    for k in w.mine([0, 1, 2, 3]):
        for args in ([], [I(1), I(2)], [RA.R("x")], [S("undef")], [B("%", I(1), I(0))], [STR("ab")], [("flt", 300.7)], [("list", (I(1),))], [RA.EMPTY, I(1)]):
            for op in ("org", "put", "rmb", "section", "align", "code"):
                if op == "code" and not args or op == "section" and args[0:1] == [STR("ab")]:
                    pass
                try:
                    check_prog(w, [FC, L(op, *args, label="l1" if k & 1 else None), FC if k & 2 else L("nop"), Line("fin")], what="arguments")
                except ZeroDivisionError:
                    pass


def overlaps(w, arg):
    """Two or three blocks at every relative position."""
    for a, n, m in w.mine(itertools.product(range(-6, 7), (1, 2, 3), (1, 2, 3))):
        A0, A1 = 0x100, 0x100 + a
        f = lambda n, v: L("fill", I(v), I(n))
        for p in ([L("org", I(A0)), f(n, 1), L("org", I(A1)), f(m, 2)], [L("org", I(A0)), f(n, 1), L("section", STR("sa")), L("org", I(A1)), f(m, 2)],
                  [L("put", I(A0)), f(n, 1), L("put", I(A1)), f(m, 2)], [L("org", I(A0)), f(n, 1), L("org", I(0x500)), L("put", I(A1)), f(m, 2)],
                  [L("org", I(A0)), f(n, 1), L("fcb", I(5)), L("org", I(A1)), f(m, 2)], [L("org", I(A0)), f(n, 1), L("rmb", I(3)), f(1, 3), L("org", I(A1)), f(m, 2)],
                  [L("org", I(A0)), f(130, 1), L("rmb", I(n)), f(130, 3), L("org", I(A1 + 130)), f(m, 2)]):
            check_prog(w, p, what="two blocks")
            for b in range(-6, 7, 1 if DEEP else 3):
                check_prog(w, p + [L("section", STR("sb")), L("org", I(A1 + b)), f(2, 4)], what="three blocks")


def surrounded(w, arg):
    """Short placement histories in every kind of surroundings."""
    al = [[x] for x in MAIN[:16:2] + SECT[1:] + GAPS[2:12:2]]
    surround(w, ([FD] + cat(s) + [FD, FC] for s in seqs(al, 3 if DEEP else 2)), "placement")
    surround(w, ([L("org", I(0x100)), L("fill", I(1), I(3))] + cat(s) + [L("fill", I(2), I(2))] for s in seqs([[x] for x in OVER], 2)), "overlap")


def main():
    c = Check("C11")
    d = 5 if DEEP else 4
    c.bounds = ["every sequence of up to %d of %d placement operations (labels on all of them)" % (d, len(MAIN)), "every sequence of up to %d of 6 section operations" % (d + 2),
                "every sequence of up to %d of %d overlapping ones and of %d gap makers" % (d + 1 if DEEP else d, len(OVER), len(GAPS)),
                "all triples of %d section names; all sequences of up to %d of 10 operations whose size settles in later passes" % (len(NAMES), 5 if DEEP else 4),
                "20 origins x 16 continuations at both ends of memory; alignments 0..%d x 11 addresses" % (299 if DEEP else 139), "two and three blocks at every relative position"]
    c.assumptions = ["reference assembler lib/refasm.py", "aligning at negative addresses and origins from 2^31 are unspecified"]
    c.explore(walk, (MAIN, d if DEEP else 3, 1, "history"))
    if not DEEP:
        c.explore(walk, (MAIN[:13] + MAIN[17:18], 4, 4, "history"))
    c.explore(walk, (SECT, d + 2, 1, "sections"))
    c.explore(walk, (OVER, d + 1 if DEEP else d, 1, "overlap"))
    c.explore(walk, (GAPS, d, 1, "gaps"))
    for f in (sections, edges, overlaps):
        c.explore(f)
    c.explore(surrounded)
    c.bounds.append(CTX % "all pairs of placement operations")
    c.finish()
