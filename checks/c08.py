"""C08: data directives."""
import itertools
import isa as ISA
import refasm as RA
from batch import ref_lines, chunked
from common import check_prog, reference
from explore import *
from refasm import L, I, S, STR, B, U, PC, EMPTY, R
from contexts import CTX, surround
from run import Check, TIER

DEEP = TIER == "thorough"
FLT = lambda v: ("flt", v)
HEAD = [L("org", I(0x100)), L("equ", I(0x1f2), label="si"), L("equ", STR("Zq"), label="ss"), L("equ", FLT(77.9), label="sf")]
TAIL = [L("equ", I(-300), label="fi"), L("equ", STR("end"), label="fs")]
ARGS = [I(0), I(1), I(0x7f), I(0x80), I(255), I(256), I(-1), I(-129), I(0x7fff), I(0x8000), I(0xffff), I(0x10005), I(-65537), I(0x123456789a),
        I(65, "'A"), FLT(1.9), FLT(-2.7), FLT(300.25), STR("A"), STR("ab"), STR("x@`~ z"), STR('q"\\'), STR("HELLO"), EMPTY,
        S("si"), S("ss"), S("sf"), S("fi"), S("fs"), B("+", S("fi"), I(1)), B("/", I(7), I(2)), B("==", STR("a"), STR("a")), U("~", I(0)),
        B("*", STR("a"), I(1)), PC]
BADARGS = [R("a"), R("x", "++"), S("undef"), B("%", I(1), I(0)), ("list", (I(1),)), B("/", I(1), I(0)), B("f", I(3), I(3)) if 0 else ("f", 3)]
DATA = ["fcb", "fcc", "fcn", "fcs", "fcv", "fci", "fdb", "fqb"]
ZERO = ["rzb", "fzb", "zmb", "bsz"]


def lists(w, arg):
    """Every list of up to n arguments."""
    small = [ARGS[i] for i in (1, 3, 5, 6, 12, 16, 19, 22, 23, 25, 27, 28, 34)] + [BADARGS[0]]

    def gen():
        for d in DATA:
            yield L(d)
            for a in seqs(ARGS + BADARGS, 2):
                yield L(d, *a)
            for a in seqs(small if not DEEP else ARGS, 3, 3):
                yield L(d, *a)
            if DEEP:
                for a in seqs(small, 4, 4):
                    yield L(d, *a)
    for b in w.mine(chunked(gen(), 400)):
        ref_lines(w, b, HEAD, TAIL, "data list")


def chars(w, arg):
    """Every byte a string can hold, alone and at each end of a pair, in every directive that takes strings."""
    cs = [chr(c) for c in list(range(1, 0x20)) + list(range(0x20, 0x100)) if c not in (10, 13)] + ["\n", "\r"]

    def gen():
        for d in DATA[:6]:
            for c in cs:
                yield L(d, STR(c))
                yield L(d, STR(c + "m"))
                yield L(d, STR("m" + c), I(0x33))
            for n in range(1, 300 if DEEP else 20):
                yield L(d, STR("".join(chr(0x30 + (i * 7) % 64) for i in range(n))))
            if DEEP:
                for a in cs[0x1f::3]:
                    for b in cs[0x1f:0x7f]:
                        yield L(d, STR(a + b))
    for b in w.mine(chunked(gen(), 150)):
        # each needs its own string; bytes of one file are Latin-1
        ref_lines(w, b, HEAD, TAIL, "character")
    if DEEP or True:
        for v in w.mine(range(-200, 66000, 1 if DEEP else 61)):
            if v % 2 == 0:
                ref_lines(w, [L(d, I(v), I(v + 1)) for d in DATA], HEAD, TAIL, "value")


def counts(w, arg):
    """Repetition counts and fill values."""
    cn = list(range(0, 270 if DEEP else 40)) + [63, 64, 127, 128, 129, 255, 256, 257, 384, 512, 1000, 4095, 4096, 0x7fff, 0x8000, 0xfeff,
                                                0xff00, 0xffff, 0x10000, 0x10001, -1, -128, -65536, 1 << 32, (1 << 32) + 4]
    cn = [I(c) for c in sorted(set(cn))] + [FLT(2.9), STR("\n"), S("undef"), S("si"), EMPTY, R("a"), S("fi"), U("-", S("fi")), STR("AB")]
    fv = [I(0), I(1), I(255), I(256), I(-1), I(0x1234), STR("xy"), FLT(3.7), S("ss"), EMPTY, R("b"), S("undef"), S("fi")]

    def gen():
        for d in ZERO:
            yield [L(d)]
            for c in cn:
                yield [L(d, c), L("fcb", I(0xee))]
                for f in fv if d == "rzb" or DEEP else fv[:3]:
                    yield [L(d, c, f), L("fcb", I(0xee))]
            yield [L(d, I(1), I(2), I(3))]
        yield [L("fill")]
        yield [L("fill", I(1))]
        yield [L("fill", I(1), I(2), I(3))]
        for c in cn:
            for f in fv:
                yield [L("fill", f, c), L("fcb", I(0xee))]
        for c in cn:
            yield [L("rmb", c), L("fcb", I(0xee))]
        yield [L("rmb")]
        yield [L("rmb", I(1), I(2))]
    for p in w.mine(gen()):
        check_prog(w, HEAD + p + [RA.Line("after")] + TAIL, what="repetition", where=True)


EMIT = [("fcb", [L("fcb", I(0x11))], 1), ("fdb", [L("fdb", I(0x2233))], 2), ("fqb", [L("fqb", I(0x44556677))], 4),
        ("nop", [L("nop")], 1), ("ldb", [L("ldb", RA.P("#", I(9)))], 2), ("ldx", [L("ldx", RA.P("#", I(0x8899)))], 3),
        ("ldy", [L("ldy", RA.P("#", I(0xaabb)))], 4), ("tim", [L("tim", RA.P("#", I(0xc1)), I(0x1234), R("x"))], 5),
        ("fcc", [L("fcc", STR("abc"))], 3), ("fcs", [L("fcs", STR("de"), I(1))], 3), ("fcn", [L("fcn", STR("f"))], 2),
        ("fill", [L("fill", I(0x5a), I(7))], 7), ("rzb", [L("rzb", I(130))], 130), ("fill2", [L("fill", I(0x77), I(255))], 255),
        ("fill3", [L("fill", I(0x66), I(124))], 124), ("align", [L("align", I(16), I(0xa5))], None), ("bin", [L("includebin", STR("b.bin"))], 300)]
BIN = {"b.bin": bytes((i * 37 + 1) & 255 for i in range(300))}


def sizes(w, arg):
    """Every amount already emitted, then every emitter (twice over): buffers grow under each of them."""
    n = 400 if DEEP else 270
    for k, (nm, ls, _) in w.mine(itertools.product(range(n), EMIT)):
        for head in ([L("fill", I(0xcc), I(k))], [L("fcb", I((i * 3) & 255)) for i in range(k)]):
            if k > 150 and len(head) > 1 and not DEEP:
                continue
            check_prog(w, [L("org", I(0x200))] + head + ls + [RA.Line("mid")] + ls + [L("fdb", S("mid"), PC)], bins=BIN, isa=3, what="after %d bytes" % k)
    pre = range(118, 138)
    for k, a, b in w.mine(itertools.product(pre, EMIT, EMIT)):
        check_prog(w, [L("org", I(0x200)), L("fill", I(0xcc), I(k))] + a[1] + b[1] + [L("fdb", PC)], bins=BIN, isa=3, what="two emitters after %d bytes" % k)
    # apart from the start of a span, in a second span, and after another section's data
    for k, (nm, ls, _), g in w.mine(itertools.product(range(120, 136), EMIT, range(4))):
        gap = [[L("rmb", I(3))], [L("org", I(0x4000))], [L("section", STR("qs")), L("fcb", I(1)), L("code")], [L("put", I(0x5000))]][g]
        check_prog(w, [L("org", I(0x200)), L("fcb", I(1), I(2))] + gap + [L("fill", I(0xcc), I(k))] + ls + [L("fdb", PC)], bins=BIN, isa=3, what="second block")


def many(w, arg):
    """Long argument lists, and blocks growing to 64K in steps of one kind at each offset."""
    pool = [I(0x1234), EMPTY, I(-2), S("fi"), I(7), EMPTY, S("si"), I(300)]
    for d, n, o in w.mine(itertools.product(DATA, list(range(4, 40)) + [63, 64, 65, 127, 128, 129, 200, 256, 300], range(len(pool)))):
        if o and n > 20 and not DEEP:
            continue
        a = [pool[(o + i) % len(pool)] if d not in ("fcc", "fcn", "fcs", "fcv", "fci") or i % 3 else STR("ab%d" % i) for i in range(n)]
        check_prog(w, HEAD + [L(d, *a), RA.Line("after")] + TAIL, what="%d arguments" % n)
    for (nm, ls, k), o in w.mine(itertools.product([e for e in EMIT if e[2] in (2, 3, 4, 5, 7) and e[0] != "fcn"], range(7))):
        if o >= k:
            continue
        check_prog(w, [L("org", I(0))] + [L("fcb", I(i + 1)) for i in range(o)] + ls * ((65536 - o) // k) + [RA.Line("qend")], isa=3, what="64K of %s" % nm)
    for b, d, (nm, ls, _) in w.mine(itertools.product(range(8, 17), range(-5, 6) if DEEP else (-4, -3, -2, -1, 0, 1), EMIT)):
        check_prog(w, [L("fill", I(0xcc), I((1 << b) + d))] + ls + [L("fdb", PC)], bins=BIN, isa=3, what="after %d bytes" % ((1 << b) + d))


def surrounded(w, arg):
    """Data lines in every kind of surroundings."""
    ls = [L(d, a) for d in DATA for a in ARGS] + [L(d, a, b) for d in DATA for a, b in zip(ARGS, ARGS[7:] + ARGS[:7])] + [L(z, I(n)) for z in ZERO for n in (0, 1, 5, 130)] + \
        [L("fill", a, I(n)) for a in (I(1), STR("z"), I(-2)) for n in (0, 3, 129)] + [L("rmb", I(n)) for n in (0, 1, 200)] + [L("includebin", STR("b.bin"))]
    ok, bad = [], []
    for l in ls:
        try:
            (ok if reference({"a.s": HEAD + [l] + TAIL}, bins=BIN).ok else bad).append(l)
        except ISA.DontCare:
            pass
    surround(w, (HEAD[1:] + g + TAIL for g in chunked(ok, 30)), "data", bins=BIN)
    surround(w, (HEAD[1:] + [L("fcb", I(1)), l, L("fcb", I(2))] + TAIL for l in bad + [L(d, a) for d in DATA for a in BADARGS]), "erroneous data", bins=BIN)


def main():
    c = Check("C08")
    c.bounds = ["every list of up to 2 arguments of %d kinds (3 of %d) for each of FCB FCC FCN FCS FCV FCI FDB FQB" % (len(ARGS) + len(BADARGS), len(ARGS) if DEEP else 14),
                "every byte value but NUL in strings, alone, first and last, in each string directive",
                "RZB FZB ZMB BSZ FILL RMB with ~%d counts x 13 fill values" % (290 if DEEP else 65),
                "every amount 0..%d already emitted x %d emitters, twice over; all pairs of emitters around a 128-byte boundary; in second blocks; lists of up to 300 arguments; "
                "64K blocks of each emitter at each offset, and each emitter around every power of two" % (400 if DEEP else 270, len(EMIT))]
    c.assumptions = ["reference assembler lib/refasm.py; NUL bytes in source are unspecified"]
    for f in (lists, chars, counts, sizes, many):
        c.explore(f)
    c.explore(surrounded)
    c.bounds.append(CTX % "every data directive with every argument")
    c.finish()
