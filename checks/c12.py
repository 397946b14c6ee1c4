"""C12: output formats."""
import itertools
import refasm as RA
from common import check_formats
from explore import *
from refasm import L, I, S, STR, B, PC, Line
from contexts import CTX, surround
from run import Check, TIER

DEEP = TIER == "thorough"
SIZES = [1, 2, 3, 31, 32, 33, 34, 63, 64, 65, 96, 97, 127, 128, 129, 160, 161, 255, 256, 257]
if DEEP:
    SIZES = sorted(set(SIZES + list(range(1, 70)) + [511, 512, 513, 1024, 4095, 4096, 4097]))
EXEC = [([], {}), ([L("end", S("st"))], {}), ([L("end", I(0xfedc))], {}), ([L("end", I(0))], {}), ([L("end", I(1))], {"exec_opt": 0x2345}), ([], {"exec_opt": "st"}), ([L("end")], {}), ([], {"exec_opt": 0})]


def block(n, seed):
    """n distinct-looking bytes."""
    o, k = [], 0
    while k < n:
        m = min(16, n - k)
        o.append(L("fcb", *[I((seed + (k + i) * 7 + ((k + i) >> 4)) & 255) for i in range(m)]))
        k += m
    return o


def single(w, arg):
    """One block: every size, address, and way of giving the exec address."""
    ad = [0, 1, 0x100, 0x7ff0, 0xfe, 0xff00]
    for n, a, (tail, kw) in w.mine(itertools.product(SIZES, ad, EXEC)):
        if a + n > 0x10000:
            continue
        check_formats(w, [L("org", I(a)), Line("st")] + block(n, a & 255) + tail, what="one block", **kw)
    for n in w.mine(SIZES):
        for a in (0x10000 - n, 0x10000 - n - 1, 0x10000 - n + 1, 0xffff, 0x10000, 0x12345):
            check_formats(w, [L("put", I(a))] + block(n, 5), what="end of memory")
            check_formats(w, [L("org", I(max(0, a - 0x8000))), L("put", I(a))] + block(n, 5), what="end of memory")
    for n in w.mine([0xff, 0x100, 0x7fff, 0x8000, 0xfeff, 0xff00, 0xfffe, 0xffff, 0x10000]):
        for a in (0, 1, 0x100):
            check_formats(w, [L("put", I(a)), L("fill", I(0x5a), I(n))], what="large block")
            check_formats(w, [L("org", I(a)), L("fcb", I(1)), L("put", I(min(n, 0xffff))), L("fcb", I(2))], what="large gap")


def sums(w, arg):
    """Every checksum: all byte values at addresses with all sums."""
    for v in w.mine(range(256)):
        for a in (0, v, v << 8, v << 8 | v, 0xffff - v, 0x1200 | v):
            check_formats(w, [L("org", I(a)), L("fcb", I(v)), L("end", I(a ^ 0xffff))], what="checksum")
            check_formats(w, [L("org", I(a)), L("fill", I(v), I(min(40, 0x10000 - a)))], what="checksum")
            check_formats(w, [L("org", I(0)), L("fcb", I(0)), L("end", I(v * 257 & 0xffff)) if a else L("end", I(v << 8))], what="exec checksum")
    for a in w.mine(range(0, 65536, 1 if DEEP else 257)):
        check_formats(w, [L("org", I(a)), L("fcb", I(a & 255)), L("end", I(a))], what="address")


def several(w, arg):
    """Two and three blocks: sizes, gaps and order in the source."""
    sz = [1, 2, 31, 32, 33, 64, 127, 128, 129] + ([63, 65, 255, 256, 257] if DEEP else [])
    gaps = [0, 1, 2, 31, 32, 127, 128, 200]
    for n, m, g, order in w.mine(itertools.product(sz, sz, gaps, (0, 1))):
        b = [[L("org", I(0x100)), Line("st")] + block(n, 1), [L("org", I(0x100 + n + g))] + block(m, 99)]
        check_formats(w, cat(b[::-1] if order else b), what="two blocks")
    sz, gaps = [1, 32, 33, 128], [0, 1, 5, 130]
    for ns in w.mine(itertools.product(sz, repeat=3)):
        for g1, g2 in itertools.product(gaps, repeat=2):
            p, q = 0x200 + ns[0] + g1, 0x200 + ns[0] + g1 + ns[1] + g2
            b = [[L("org", I(0x200)), Line("st")] + block(ns[0], 1), [L("org", I(p))] + block(ns[1], 60), [L("org", I(q))] + block(ns[2], 120)]
            for o in itertools.permutations(range(3)):
                if o in ((0, 1, 2), (2, 1, 0), (1, 2, 0)) or DEEP:
                    check_formats(w, cat([b[i] for i in o]) + ([L("end", S("st"))] if g1 == 1 else []), what="three blocks")
    # the same in sections, which start where the one before ends unless placed
    for ns in w.mine(itertools.product(sz, repeat=3)):
        for pl in itertools.product((None, 0x400, 0x800), repeat=2):
            p = [L("org", I(0x600))] + block(ns[0], 1)
            for k in (0, 1):
                p += [L("section", STR("s%d" % k))] + ([L("org", I(pl[k] + 0x40 * k))] if pl[k] is not None else []) + block(ns[k + 1], 50 * k)
            check_formats(w, p + [L("code")] + block(3, 200), what="sections")


def beside(w, arg):
    """Every byte value on either side of gaps of several sizes."""
    for v in w.mine(range(256)):
        for g, u in itertools.product((1, 2, 31, 200) if not DEEP else (1, 2, 3, 4, 31, 32, 33, 127, 128, 200, 255, 256, 257), (v, 0, 0xff, v ^ 0xff, v ^ 0x80)):
            check_formats(w, [L("org", I(0x300)), L("fcb", I(v)), L("org", I(0x301 + g)), L("fcb", I(u))], what="beside a gap")
        for g in (1, 40):
            check_formats(w, [L("org", I(0x300)), L("fill", I(v), I(33)), L("rmb", I(g)), L("fcb", I(v), I(1)), L("rmb", I(g)), L("fdb", I(v))], what="beside a gap")


def histories(w, n):
    """Placement histories in every format."""
    al = [L("fcb", I(0xab)), L("fdb", PC), L("org", I(0x100)), L("org", I(0x102)), L("put", I(0x110)), L("put", I(0xf0)), L("rmb", I(1)), L("rmb", I(0x30)), L("align", I(16), I(0xee)), L("section", STR("sa")),
          L("code"), L("fill", I(0x5a), I(33)), L("end", PC), L("put", I(0xffff)), L("rzb", I(2))]
    for s in w.mine(seqs(al, n)):
        check_formats(w, [L("org", I(0x101))] + list(s) + [L("fcb", I(0xcd))], what="history")
    for s in w.mine(seqs(al, 2)):
        for tail, kw in EXEC:
            check_formats(w, [L("org", I(0x101)), Line("st")] + list(s) + tail, what="history with exec", **kw)
    for tail, kw in w.mine(EXEC):
        for p in ([], [Line("st")], [L("rmb", I(5), label="st")], [L("org", I(0x300), label="st")], [L("rzb", I(0), label="st")], [L("section", STR("sa")), Line("st")]):
            if p or not tail or tail[0].args != (S("st"),):
                check_formats(w, p + tail, what="no data", **kw)


def surrounded(w, arg):
    """Several blocks in every kind of surroundings, in every format."""
    ops = [block(3, 9), block(130, 1), [L("org", I(0x3000)), L("fdb", PC)], [L("put", I(0x6000)), L("fcb", I(5))], [L("section", STR("sa")), L("fcb", I(7))], [L("rmb", I(40)), L("fcb", I(8))], [L("end", I(0x1234))], [Line("st"), L("end", S("st"))]]
    surround(w, (cat(s) for s in seqs(ops, 3 if DEEP else 2)), "blocks", run=check_formats)


def main():
    c = Check("C12")
    c.bounds = ["one block: %d sizes x 6 addresses x %d exec address choices, around the end of memory, and up to 64K" % (len(SIZES), len(EXEC)),
                "every byte value with every address sum (all checksums); %s exec addresses" % ("all 65536" if DEEP else "256"),
                "two blocks: %d sizes squared x 8 gaps x both orders; three: 64 sizes x 16 gaps x %d orders; three sections" % (14 if DEEP else 9, 6 if DEEP else 3),
                "every sequence of up to %d of 15 placement operations" % (4 if DEEP else 3), "every byte value beside gaps of %d sizes" % (13 if DEEP else 4), "each in all five formats"]
    c.assumptions = ["decoders in lib/formats.py", "reference assembler lib/refasm.py"]
    for f in (single, sums, several, beside):
        c.explore(f)
    c.explore(histories, 4 if DEEP else 3)
    c.explore(surrounded)
    c.bounds.append(CTX % "all pairs of 8 kinds of block, in every format")
    c.finish()
