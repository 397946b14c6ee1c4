"""C20: splitting source over files; INCLUDEBIN."""
import itertools
import refasm as RA
from common import check_prog, check_formats, reference, expectation
import isa as ISA
from explore import *
from refasm import L, I, S, STR, B, A, PC, P, R, ID, Line
from run import Check, TIER

DEEP = TIER == "thorough"
OPENERS, CLOSERS = {"if", "macro"}, {"endif", "endm"}


def copy(l):
    return Line(l.label, l.op, l.args, l.raw, l.bad)


def depths(ls):
    """Block depth before each line, and at the end."""
    d, o = 0, []
    for l in ls:
        o.append(d)
        d += (l.lop in OPENERS) - (l.lop in CLOSERS)
    return o + [d]


def whole(ls, i, j):
    """Lines i..j can be a file of their own: no block or branch is cut."""
    d = depths(ls)
    return d[i] == d[j] and all(d[k] >= d[i] for k in range(i, j)) and not any(d[k] == d[i] and l.lop in ("else", "elsif") for k, l in enumerate(ls[i:j], i))


def sectioned(ls):
    return any(l.lop in ("section", "code", "data", "bss", "ram", "auto") for l in ls)


def inc(name, lab=None):
    return Line(lab, "include", (STR(name),))


def ways(ls, ncut):
    """(kind, files, main) for every way to split."""
    n = len(ls)
    d = depths(ls)
    cuts = [i for i in range(1, n) if d[i] == 0]
    # several files on the command line, by every set of cuts (empty files too)
    for cs in subsets(cuts):
        if cs and (len(cs) <= ncut or len(cs) == len(cuts)):
            b = (0,) + cs + (n,)
            fs = {"f%d" % k: ls[b[k]:b[k + 1]] for k in range(len(b) - 1)}
            yield "files", fs, tuple(fs)
    for i in (0, n):
        fs = {"f0": ls[:i], "f1": ls[i:]}
        yield "files", fs, ("f0", "f1")
    # one included range, any that is whole; and another one inside it
    rs = [(i, j) for i in range(n) for j in range(i + 1, n + 1) if whole(ls, i, j)]
    for i, j in rs:
        yield "include", {"a.s": ls[:i] + [inc("f1")] + ls[j:], "f1": ls[i:j]}, ("a.s",)
        for k, m in rs:
            if i <= k and m <= j and (k, m) != (i, j) and (DEEP or k == i or m == j):
                yield "nested include", {"a.s": ls[:i] + [inc("f1")] + ls[j:], "f1": ls[i:k] + [inc("f2")] + ls[m:j], "f2": ls[k:m]}, ("a.s",)
            if j <= k and (DEEP or k <= j + 1):
                yield "two includes", {"a.s": ls[:i] + [inc("f1")] + ls[j:k] + [inc("f2")] + ls[m:], "f1": ls[i:j], "f2": ls[k:m]}, ("a.s",)
    for i in range(n + 1):
        yield "empty include", {"a.s": ls[:i] + [inc("f1")] + ls[i:], "f1": []}, ("a.s",)


def check_split(w, ls, what, which=None, **kw):
    """Every way to split, each against the reference model, whose outcome for the
    split program must be that of the whole."""
    try:
        one = expectation(reference({"a.s": [copy(l) for l in ls]}, **kw))
    except ISA.DontCare:
        w.stats.outcome("unspecified")
        return
    for kind, fs, main in ways(ls, 1 if which or not DEEP else 2):
        if which and kind not in which:
            continue
        f = {n: [copy(l) for l in x] for n, x in fs.items()}
        ref = check_prog(w, f, main, what="%s, %s" % (what, kind), **kw)
        if ref is None:
            continue
        if expectation(ref) != one and not any(sectioned(x) for n, x in fs.items() if n not in main):
            w.bad("%s, %s: differs from the single file" % (what, kind), [], {n: RA.text(x) for n, x in fs.items()}, str(one), str(expectation(ref)))
        w.stats.outcome(kind)


G = [[L("fdb", PC, label="la")], [L("lda", S("fwd"))], [L("bra", S("la"))], [Line(1)], [L("fdb", ("b", 1), ("f", 1))], [L("leax", S("fwd"), R("pcr"), label=1)], [L("org", I(0x200))], [L("rmb", I(5), label="lr")], [L("section", STR("sa"))], [L("code")], [L("setdp", I(2))],
     [L("set", I(3), label="vs")], [L("set", B("+", S("vs"), I(1)), label="vs")], [L("fcb", S("vs"))], [L("equ", B("+", S("fwd"), I(1)), label="eq")], [L("fcb", S("eq"))], [L("macro", label="mm"), L("fcb", A(1)), Line(1), L("fdb", ("b", 1)), L("endm")], [L("mm", I(7))], [L("mm", S("fwd"))],
     [L("if", S("eq")), L("fcb", I(1)), L("else"), L("fcb", I(2)), L("endif")], [L("if", I(0)), L("nop"), L("elsif", S("vs")), L("fdb", PC, label="li"), L("endif")], [L("fcb", S("undef"))], [L("put", I(0x400))], [L("align", I(4))], [L("fcc", STR("text"))], [L("export", S("la"))], [L("ldb", S("fwd"), R("pcr"), label=1), Line(1)], [L("lda", S("li"))]]
CORE = [0, 1, 3, 4, 5, 8, 9, 12, 16, 17, 19, 20, 22, 25]
TAIL = [L("rmb", I(120)), Line("fwd"), Line(1)]


def complete(s):
    """Add the definitions the chosen groups lack, so that most programs are in order."""
    p = cat([G[i] for i in s])
    have = {l.label for l in p}
    head = ([] if "mm" in have else G[16]) + ([] if "vs" in have else G[11])
    return head + p + [Line(n) for n in ("la", "li") if n not in have] + ([] if "eq" in have else G[14]) + TAIL


def splits(w, arg):
    for s in w.mine(seqs(range(len(G)), 2)):
        check_split(w, complete(s) if len(s) == 1 or s[0] % 3 else cat([G[i] for i in s]) + TAIL, "program")
    for s in w.mine(itertools.product(range(len(G)) if DEEP else CORE, repeat=3)):
        check_split(w, complete(s), "program", ("files", "include"))


def depth(w, arg):
    """Chains of includes up to and beyond the limit, through macros too; the same file several times."""
    for d, where in w.mine(itertools.product(range(0, 12), range(3))):
        for body in ([L("fdb", PC, S("fwd"))], [Line(1), L("fdb", ("b", 1), ("f", 1))], [L("mm", I(4))], [L("section", STR("sb")), L("fcb", I(1))], [L("set", B("+", S("vs"), I(1)), label="vs"), L("fcb", S("vs"))]):
            fs = {"f%d" % d: body}
            for k in range(d):
                x = [L("fcb", I(k))]
                fs["f%d" % k] = [[inc("f%d" % (k + 1))] + x, x + [inc("f%d" % (k + 1))], [Line(1)] + x + [inc("f%d" % (k + 1))] + x][where]
            fs["a.s"] = [L("macro", label="mm"), L("fcb", A(1)), L("endm"), L("set", I(0), label="vs"), Line(1), inc("f0"), Line(1), L("fcb", S("vs"), label="fwd")]
            check_prog(w, fs, what="depth %d" % d)
            fs["a.s"] = [L("macro", label="mm"), L("fcb", A(1)), L("endm"), L("macro", label="mi"), inc("f0"), L("endm"), L("set", I(0), label="vs"), Line(1), L("mi"), Line(1), L("fcb", S("vs"), label="fwd")]
            check_prog(w, fs, what="depth %d in a macro" % d)
    for n in w.mine(range(1, 60)):
        for body in ([L("fdb", PC, S("fwd"))], [Line(1), L("fdb", ("b", 1), ("f", 1))], [L("set", B("+", S("vs"), I(1)), label="vs"), L("rmb", S("vs"))], [L("lda", S("fwd"), R("pcr"))]):
            f = {"a.s": [L("set", I(0), label="vs"), Line(1)] + [inc("f1")] * n + [Line("fwd"), Line(1)], "f1": body}
            check_prog(w, {k: [copy(l) for l in v] for k, v in f.items()}, what="the same file %d times" % n)
            if n < 20:
                check_prog(w, {"h": f["a.s"][:2], "f1": body, "t": f["a.s"][-2:]}, ("h",) + ("f1",) * n + ("t",), what="the same file %d times on the command line" % n)
                # one file per line
                ls = f["a.s"][:2] + body * n + f["a.s"][-2:]
                check_prog(w, {"f%d" % i: [copy(l)] for i, l in enumerate(ls)}, tuple("f%d" % i for i in range(len(ls))), what="a file per line")
                check_prog(w, dict({"f%d" % i: [copy(l)] for i, l in enumerate(ls)}, **{"a.s": [inc("f%d" % i) for i in range(len(ls))]}), what="an include per line")


def twins(w, arg):
    """Two files, or binaries, whose names differ in one place, in case, or in length: each is read for itself."""
    base = "abcdefghijklmnopqrstuvwxyz-0123456789_" * 4
    for n in w.mine(list(range(2, 70)) + [100, 127, 128, 129]):
        nm = "m" + base[:n - 1]
        for i in range(n):
            others = {nm[:i] + "#" + nm[i + 1:], nm[:i] + nm[i].upper() + nm[i + 1:], nm[:i], nm[:i] + "." + nm[i:]} - {nm, ""}
            if n > 40:
                others = {nm[:i] + "#" + nm[i + 1:], nm[:i]} - {nm, ""}
            for o in others:
                f = {nm: [L("fdb", PC, I(0x11))], o: [L("fdb", PC, I(0x22))]}
                for k in ((0, 1, 2, 3) if n < 20 else ((i + n) % 4,)):
                    if k == 0:
                        check_prog(w, dict({"a.s": [inc(nm), inc(o), inc(nm)]}, **f), what="two like names")
                    elif k == 1:
                        check_prog(w, {x: [copy(l) for l in y] for x, y in f.items()}, (o, nm), what="two like names on the command line")
                    elif k == 2:
                        check_prog(w, [L("includebin", STR(nm)), L("includebin", STR(o)), L("includebin", STR(nm))], bins={nm: b"one", o: b"other"}, what="two like binaries")
                    else:
                        check_prog(w, dict({"a.s": [inc(o), L("includebin", STR(o)), inc(nm)]}, **f), what="a name as source and binary") if False else check_prog(w, dict({"a.s": [inc(o)], o: [L("fcb", I(1)), inc(nm)]}, **{nm: [L("fcb", I(2))]}), what="nested like names")


def places(w, arg):
    """Files of like names in different directories, and one file named in different ways."""
    nms = ["n", "./n", "p/n", "./p/n", "p/q/n", "q/n", "p/m", "q/p/n", "p//n", "pn", "n.s", "p/n.s", "p.s/n", "p/.n", ".n", ".p/n"]
    real = lambda n: "/".join(x for x in n.split("/") if x not in ("", "."))
    def body(n, j):
        i = [real(x) for x in nms].index(real(n)) + 1
        return [L("fdb", PC, I(i), label="l%d" % i if j else None), L("set", I(i), label="vs"), L("fcb", S("vs"))]
    for k, n in w.mine(itertools.product(range(6), (2, 3))):
        for s in itertools.product(nms if n == 2 or DEEP else nms[:7], repeat=n):
            f = {x: body(x, 0) for x in s}
            if k == 0:
                check_prog(w, dict({"a.s": [inc(x) for x in s] + [Line("fin")]}, **f), what="names with directories")
            elif k == 1:
                check_prog(w, f, s, what="names with directories on the command line")
            elif k == 2:
                check_prog(w, [L("includebin", STR(x)) for x in s] + [Line("fin")], bins={x: real(x).encode() for x in s}, what="binaries in directories")
            elif k == 3:
                # each file includes the next: names are relative to where the program runs, not to the file
                if len({real(x) for x in s}) == n:
                    check_prog(w, dict({"a.s": [inc(s[0]), L("fcb", I(9))]}, **{x: body(x, 1) + ([inc(s[i + 1])] if i + 1 < n else []) + [L("fcb", S("vs"))] for i, x in enumerate(s)}), what="nested names with directories")
            elif k == 4:
                check_prog(w, dict({"a.s": [inc(x) for x in s[1:]] + [L("include", STR(s[0]))]}, **{x: body(x, 0) for x in s[1:]}), what="a file that is in another directory") if real(s[0]) not in [real(x) for x in s[1:]] else None
            else:
                # an error names the file
                g = dict(f)
                g[s[-1]] = f[s[-1]] + [L("fcb", S("undef"))]
                if all(real(x) != real(s[-1]) or x == s[-1] for x in s):
                    check_prog(w, dict({"a.s": [inc(x) for x in s]}, **g), what="error in a directory")
                    check_prog(w, g, s, what="error in a directory")


def many(w, arg):
    """Any number of files, opened once or again and again."""
    ns = list(range(1, 70)) + [90, 126, 127, 128, 129, 200, 255, 256, 257] + ([400] if DEEP else [])
    for n, k in w.mine(itertools.product(ns, range(8))):
        fs = {"f%d" % i: [L("fdb", PC, I(i), label="l%d" % i)] for i in range(n)}
        seq = ["f%d" % i for i in range(n)]
        tail = [L("fdb", PC, S("late")), L("equ", S("later"), label="late"), L("equ", I(7), label="later")]
        if k == 0:
            check_prog(w, dict({"a.s": [inc(f) for f in seq] + tail}, **fs), what="%d included files" % n)
        elif k == 1:
            check_prog(w, dict({"a.s": tail}, **fs), ["a.s"] + seq, what="%d files on the command line" % n)
        elif k == 2:
            check_prog(w, [L("includebin", STR(f)) for f in seq] + tail, bins={f: f.encode() for f in seq}, what="%d binary files" % n)
        elif k == 3:
            check_prog(w, [L("includebin", STR("b"))] * n + tail, bins={"b": b"xy"}, what="a binary file %d times" % n)
        elif k == 4:
            check_prog(w, {"a.s": [inc("i")] * n + tail, "i": [L("fdb", PC), L("includebin", STR("b"))]}, bins={"b": b"xy"}, what="a file %d times" % n)
        elif k == 5:
            check_prog(w, {"a.s": [L("macro", label="mm"), inc("i"), L("includebin", STR("b")), L("endm")] + [L("mm")] * n + tail, "i": [L("fdb", PC)]}, bins={"b": b"xy"}, what="a macro including files %d times" % n)
        elif k == 6:
            check_prog(w, {"a.s": [L("rmb", S("c%d" % 9))] + [L("equ", B("+", S("c%d" % (i - 1)), I(1)) if i else I(1), label="c%d" % i) for i in range(9, -1, -1)] + [L("includebin", STR("b"))] * n}, bins={"b": b"z"}, what="a binary file %d times in every pass" % n)
        else:
            check_prog(w, dict({"a.s": [inc(f) for f in seq] + [inc("none")]}, **fs), what="%d included files and a missing one" % n)


def lines(w, arg):
    """The INCLUDE line itself: labels, names given by macros, symbols and strings of every shape."""
    f1 = [L("fdb", PC, label="in"), L("section", STR("sa")), L("fcb", I(4)), Line(1)]
    for k, lab in w.mine(itertools.product(range(9), (None, "la", 1))):
        a = [[L("fcb", I(1)), inc("f1", lab), L("fdb", PC), L("fcb", I(2), label="af")], [L("section", STR("sa")), inc("f1", lab), L("fcb", I(2))], [L("section", STR("sb")), L("nop"), inc("f1", lab), L("fcb", I(2)), L("code"), L("nop")],
             [L("macro", label="mm"), L("include", A(1), label=lab), L("endm"), L("mm", STR("f1"))], [L("macro", label="mm"), L("include", STR("f", ("p", 1)) if False else A(1)), L("endm"), L("mm", STR("f1")), Line(lab)], [L("equ", STR("f1"), label="nm"), L("include", S("nm"), label=lab)],
             [L("if", I(0)), inc("none", lab), L("else"), inc("f1", lab), L("endif")], [L("LIB", STR("f1"), label=lab), L("fcb", I(3))], [L("setdp", I(0)), inc("f1", lab), L("lda", I(5))]][k]
        check_prog(w, {"a.s": a + [Line("fin")], "f1": f1}, what="include line")
        check_prog(w, {"b.s": [L("nop")], "a.s": a + [Line("fin")], "f1": f1}, ("b.s", "a.s"), what="include line")
    for nm in w.mine(["f 1", "f.1", "f'1", "f;1", "f*1", "x" * 200, "f,1", "-f", "%f", "f\\", "f#1", "(f)", "f\t1"]):
        check_prog(w, {"a.s": [inc(nm), Line("fin")], nm: [L("fcb", I(1))]}, what="file name")
        check_prog(w, {"a.s": [L("includebin", STR(nm)), Line("fin")]}, bins={nm: b"\1\2"}, what="file name")
    # errors in included files and between files
    for e in w.mine([[L("fcb", S("undef"))], [L("bogus")], [Line("la")], [L("lda", P("#", I(1)), I(2))], [L("else")], [L("endif")], [L("endm")], [L("error")], [L("fdb", ("f", 9))], [L("mm", I(1))], [L("bra", S("far"))]]):
        for a, m in (([Line("la"), L("nop"), inc("f1"), L("nop")], ("a.s",)), ([Line("la"), L("nop")], ("a.s", "f1")), ([Line("la"), inc("f0")], ("a.s",))):
            check_prog(w, {"a.s": a + [L("macro", label="mm"), L("bogus"), L("endm"), L("equ", I(0x1000), label="far")], "f1": [L("nop")] + e, "f0": [Line(), inc("f1")]}, m, what="error in a file")


def binaries(w, arg):
    """INCLUDEBIN: every length, every byte value, at every distance into a block."""
    top = 2200 if DEEP else 1100
    for n in w.mine(list(range(top)) + [4095, 4096, 4097, 8191, 8192, 8193, 16384, 32768, 65534, 65535, 65536, 65537, 65540]):
        d = bytes((i * 31 + (i >> 8) + n) & 255 for i in range(n))
        check_prog(w, [L("includebin", STR("b"), label="la"), Line("fin")], bins={"b": d}, what="INCLUDEBIN of %d bytes" % n)
        if n < 5000:
            check_prog(w, [L("org", I(0x123)), L("fcb", I(1)), L("includebin", STR("b")), L("fdb", PC, label="af"), L("includebin", STR("b")), L("section", STR("sa")), L("includebin", STR("b")), Line("fin"), L("lda", S("fin"))], bins={"b": d}, what="INCLUDEBIN of %d bytes" % n)
            check_formats(w, [L("org", I(0x40)), L("includebin", STR("b")), Line("fin")], bins={"b": d}, extra_files={"b": d}, what="INCLUDEBIN of %d bytes" % n)
    for v in w.mine(range(256)):
        for d in (bytes([v]), bytes([v, v]), bytes([0x41, v]), bytes([v, 0x0a]), bytes([0x0d, v, 0x1a]), bytes([v]) * 300):
            check_prog(w, [L("includebin", STR("b")), L("fdb", PC)], bins={"b": d}, what="INCLUDEBIN byte $%02x" % v)
    if DEEP:
        for v in w.mine(range(65536)):
            check_prog(w, [L("includebin", STR("b")), L("fdb", PC)], bins={"b": bytes([v >> 8, v & 255])}, what="INCLUDEBIN bytes $%04x" % v)
    for k in w.mine(range(300)):
        d = bytes((i * 7) & 255 for i in range(150))
        check_prog(w, [L("fill", I(0xee), I(k)), L("includebin", STR("b")), L("fdb", PC)], bins={"b": d}, what="INCLUDEBIN after %d bytes" % k)
    for a in w.mine([0xfffe, 0xffff, 0x10000, 0xfff0, -1]):
        for n in (0, 1, 2, 3, 16, 17):
            check_prog(w, [L("org", I(a)), L("includebin", STR("b")), Line("fin")], bins={"b": b"\5" * n}, what="INCLUDEBIN at the end of memory")
    ops = [[L("includebin", STR("b"))], [L("includebin", STR("c"), label="lb")], [L("section", STR("sa"))], [L("if", I(0)), L("includebin", STR("none")), L("endif")], [L("fdb", PC, S("fwd"))], [L("lda", S("fwd"), R("pcr"))], [inc("i.s")], [L("mb", STR("b"))], [L("org", I(0x70))], [L("includebin", S("nm"))], [L("includebin", I(5))], [L("includebin")]]
    for s in w.mine(seqs(range(len(ops)), 4 if DEEP else 3)):
        check_prog(w, {"a.s": [L("macro", label="mb"), L("includebin", A(1)), L("endm"), L("equ", STR("c"), label="nm")] + cat([ops[i] for i in s]) + [Line("fwd")], "i.s": [L("includebin", STR("b"))]}, bins={"b": bytes(range(120, 250)), "c": b"c\nd"}, what="INCLUDEBIN history")


def main():
    c = Check("C20")
    c.bounds = ["every pair and triple (%s) of %d line groups, split in every way over command-line files, one, two or nested included files (no block cut), an empty file anywhere" % ("all" if DEEP else "triples of %d" % len(CORE), len(G)),
                "include depths 0..11 through files and macros, the same file up to 59 times, a file per line", "1..69 and up to %d files: included, binary, on the command line, again and again" % (400 if DEEP else 257), "pairs of file names of 2..129 characters that differ in one place, case or length", "every pair (and triple%s) of 16 names with directories: included, nested, binary, missing, in error, on the command line" % ("" if DEEP else " of 7"), "INCLUDEBIN of every length to %d and round numbers to 65540, every byte value, every position in a block, histories of %d" % (2199 if DEEP else 1099, 4 if DEEP else 3)]
    c.assumptions = ["reference assembler lib/refasm.py; an INCLUDE leaves the current section as it was; blocks do not extend over files"]
    for f in (splits, depth, twins, places, many, lines, binaries):
        c.explore(f)
    c.finish()
