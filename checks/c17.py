"""C17: errors always surface, located; without errors every requested output is written."""
import itertools, re
import isa as ISA
import refasm as RA
from common import FMT, expect_format, got_format, expectation, opt_args, reference, show, showf
from explore import *
from refasm import L, I, S, STR, B, U, T, A, ID, PC, P, R, V, EMPTY, Line
from run import Check, TIER

DEEP = TIER == "thorough"
UN = S("undef1")


def bad(t):
    return Line(raw=t, bad=True)


def cut(t):
    """A line whose operands are malformed from the start: it counts as one without operands."""
    f = t.split(" ")
    return Line(f[0] or None, f[1], (), raw=t)


KINDS = {
    "undefined": [[L("fcb", UN)], [L("fdb", B("+", UN, I(1)))], [L("fqb", T(UN, I(1), I(2)))], [L("fcc", STR("a"), UN)], [L("lda", UN)], [L("lda", P("#", UN))], [L("lda", UN, R("x"))], [L("ldx", ("list", (UN,)))], [L("lda", P("<", UN))], [L("bra", UN)], [L("lbra", UN)], [L("leax", UN, R("pcr"))],
                  [L("equ", UN, label="zq")], [L("set", UN, label="zq")], [L("rmb", UN)], [L("org", UN)], [L("put", UN)], [L("fill", I(1), UN)], [L("fill", UN, I(1))], [L("rzb", UN)], [L("align", UN)], [L("setdp", UN)], [L("tfr", UN, R("a"))], [L("pshs", UN)], [L("includebin", UN)], [L("fcb", ("b", 55))], [L("fcb", ("f", 55))], [L("bra", ("b", 55))],
                  [L("fcb", A(1))], [L("fcc", STR("x", 1))], [L("fcb", ID("undef", "1"))], [L("jmp", ("list", (UN, R("y"))))], [L("aim", P("#", UN), I(1))], [L("lda", P("#", I(1))), L("fcb", I(1), I(2), UN)], [L("end", UN)], [L("fcb", U("!", UN))], [L("fcb", U("-", UN))], [L("section", UN)]],
    "multiple": [[Line("dup"), Line("dup")], [L("equ", I(1), label="dup"), L("equ", I(2), label="dup")], [L("nop", label="dup"), L("equ", I(2), label="dup")], [L("set", I(1), label="dup"), L("nop", label="dup")], [L("equ", I(1), label="dup"), L("equ", I(1), label="dup")],
                 [L("rmb", I(1), label="dup"), L("fcb", I(1), label="dup")], [L("macro", label="dm"), L("endm"), L("macro", label="dm"), L("endm")], [L("equ", I(1), label="dup"), L("set", I(2), label="dup")], [L("macro", label="dn"), L("nop", label="dl"), L("endm"), L("dn"), L("dn")]],
    "unknown": [[L("bogus")], [L("bogus", I(1))], [L("ldaa", P("#", I(1)))], [L("nopp", label="zl")], [L("sexw")], [L("ldq", P("#", I(1)))], [L("addr", R("a"), R("b"))], [L("byte", I(1))]],
    "arguments": [[L("nop", I(5))], [L("lda")], [L("ldx")], [L("jmp")], [L("bra")], [L("fcb")], [L("fdb")], [L("rmb")], [L("rmb", I(1), I(2))], [L("fill", I(1))], [L("fill", I(1), I(2), I(3))], [L("org")], [L("org", I(1), I(2))], [L("setdp")], [L("align")], [L("align", I(1), I(2), I(3))], [L("put")], [L("section")], [L("include")], [L("includebin")],
                  [L("equ", label="zq")], [L("equ", I(1), I(2), label="zq")], [L("equ", I(1))], [L("set", I(1))], [L("if"), L("endif")], [L("if", I(1), I(2)), L("endif")], [L("tfr", R("a"))], [L("exg", R("a"), R("b"), R("d"))], [L("lda", I(1), R("x"), I(2))], [L("export")], [L("macro"), L("endm")], [L("lda", P("#", I(1)), P("#", I(2)))], [L("bra", I(1), I(2))], [L("end", I(1), I(2))],
                  [L("rzb")], [L("fqb")]],
    "types": [[L("fcb", R("x"))], [L("fdb", R("x"))], [L("fdb", ("list", (I(1),)))], [L("rmb", R("a"))], [L("org", R("a"))], [L("align", R("a"))], [L("lda", I(5), I(6))], [L("sta", P("#", I(1)))], [L("leax", P("#", I(1)))], [L("leax", I(100))], [L("jsr", P("#", I(1)))], [L("lda", R("x"))], [L("lda", R("a"), R("b"))],
              [L("ldx", ("list", (EMPTY, R("x", "+"))))], [L("pshs", ("list", (R("a"),)))], [L("include", I(5))], [L("include", R("x"))], [L("includebin", I(5))], [L("section", I(5))], [L("inca", R("a"))] , [L("bra", R("x"))],
              [L("fcb", B("%", I(1), I(0)))], [L("ldx", ("list", (I(1), R("a"), R("x"))))], [L("pshs", R("s"))], [L("pulu", R("u"))]],
    "range": [[L("bra", B("+", PC, I(130)))], [L("bra", B("-", PC, I(127)))], [L("beq", I(0x7000))], [L("rmb", I(-1))], [L("align", I(0))], [L("align", I(-4))], [L("fill", I(1), I(-1))], [L("rzb", I(-1))], [L("put", I(-1))], [L("org", I(0xffff)), L("fdb", I(1))], [L("org", I(0x10000)), L("nop")], [L("org", I(-5)), L("nop")], [L("bsr", I(0x4000))]],
    "files": [[L("include", STR("missing"))], [L("includebin", STR("missing"))], [L("include", STR("nodir/x"))], [L("includebin", STR("a/b/c"))], [L("lib", STR("missing"))]],
    "blocks": [[L("endif")], [L("else")], [L("elsif", I(1))], [L("endm")], [L("if", I(1)), L("else"), L("else"), L("endif")], [L("if", I(0)), L("else"), L("elsif", I(1)), L("endif")], [L("if", I(1))], [L("if", I(0))], [L("if", I(1)), L("else")], [L("if", I(0)), L("else")], [L("macro", label="um")], [L("macro", label="um"), L("nop")], [L("macro", label="um"), L("if", I(1)), L("endm"), L("um")],
               [L("macro", label="um"), L("endif"), L("endm"), L("if", I(1)), L("um")]],
    "depth": [[L("macro", label="rec"), L("rec"), L("endm"), L("rec")], [L("macro", label="re1"), L("re2"), L("endm"), L("macro", label="re2"), L("re1"), L("endm"), L("re1")], [L("include", STR("self"))]],
    "operand": [[cut(t)] for t in (" fcb (", " fcb 1+", ' fcb "abc', " fcb /abc", " lda [1", " lda [1,x", " fcb 1?2", " fcb 1?2:", " fcb *+", " fcb ~", " fcb (1", "lab fcb [", " fcb [1,[2]", " lda #)", " fcb 1 ? 2 3", " fcb +", " fcb <<", " fcb ##1", " leax [,x")],
    "syntax": [[bad(t)] for t in (" ,", " 5", " (", "a-b nop", "# nop", "-1 nop", "lab: nop", "(lab) nop", "\"lab\" nop", "[ nop", "1x nop", " +nop", " $ nop", "lab, nop", "=", " =", "lab =5", "~", " .")],
    "nonconverging": [[L("rmb", B("&", B("+", S("nc"), I(1)), I(7))), Line("nc")]],
}
FLAT = [(k, p) for k, ps in KINDS.items() for p in ps]
GOOD = [L("lda", S("good1")), L("fcb", I(1)), L("leax", S("good2"), R("pcr")), L("ldx", S("good2"))]
G2 = [L("nop", label="good1"), L("fcc", STR("text"))]
G3 = [L("rmb", I(2), label="good2"), L("fcb", I(3))]
INC = {"self": [L("nop"), L("include", STR("self"))]}


def places():
    """name -> function(lines) -> (files, main)"""
    def one(f):
        return lambda e: ({"a.s": f(e)}, ("a.s",))

    def inc(depth, f=lambda e: e):
        def g(e):
            fs = {"a.s": GOOD + [L("include", STR("i1"))] + G2 + G3}
            for i in range(1, depth):
                fs["i%d" % i] = [L("nop"), L("include", STR("i%d" % (i + 1))), L("nop")]
            fs["i%d" % depth] = [L("nop")] + f(e) + [L("nop")]
            return fs, ("a.s",)
        return g

    def mac(e, called=True):
        return [L("macro", label="pm"), L("nop")] + e + [L("nop"), L("endm")] + ([L("pm")] if called else [])
    hd = [L("org", I(0x1000))]
    pl = {
        "alone": one(lambda e: e), "first": one(lambda e: e + GOOD + G2 + G3), "last": one(lambda e: hd + GOOD + G2 + G3 + e), "middle": one(lambda e: hd + GOOD + e + G2 + G3),
        "after comments": one(lambda e: [Line(raw=""), Line(raw="; x"), Line(raw="* y"), Line(raw="   ")] + e + [Line(raw="")]),
        "after warnings": one(lambda e: [L("pshs", R("d"), R("a")), L("lda", P(">", I(5))), L("lda", P(">", I(0)), R("x")), L("tfr", R("a"), R("x"))] + e + [L("tfr", R("a"), R("x"))]),
        "second file": lambda e: ({"a.s": GOOD + G2, "b.s": e + G3}, ("a.s", "b.s")), "first file": lambda e: ({"a.s": GOOD + e, "b.s": G2 + G3}, ("a.s", "b.s")), "end of second file": lambda e: ({"a.s": GOOD + G2 + G3, "b.s": [L("nop")] + e}, ("a.s", "b.s")),
        "third file": lambda e: ({"a.s": GOOD + G2, "b.s": G3, "c.s": e}, ("a.s", "b.s", "c.s")), "after END of another file": lambda e: ({"a.s": GOOD + G2 + [L("end")], "b.s": e + G3}, ("a.s", "b.s")),
        "include": inc(1), "include in include": inc(2), "include 6 deep": inc(6), "macro": one(lambda e: GOOD + mac(e) + G2 + G3), "uncalled macro": one(lambda e: GOOD + mac(e, False) + G2 + G3), "macro called twice": one(lambda e: GOOD + mac(e) + [L("pm")] + G2 + G3),
        "macro in macro": one(lambda e: GOOD + mac(e, False) + [L("macro", label="po"), L("nop"), L("pm"), L("endm"), L("po")] + G2 + G3), "macro in include": inc(1, mac), "include in macro": lambda e: ({"a.s": GOOD + mac([L("include", STR("i1"))]) + G2 + G3, "i1": [L("nop")] + e}, ("a.s",)),
        "taken": one(lambda e: GOOD + [L("if", I(1))] + e + [L("endif")] + G2 + G3), "skipped": one(lambda e: GOOD + [L("if", I(0))] + e + [L("endif")] + G2 + G3), "else": one(lambda e: GOOD + [L("if", I(0)), L("nop"), L("else")] + e + [L("endif")] + G2 + G3),
        "skipped else": one(lambda e: GOOD + [L("if", I(1)), L("nop"), L("else")] + e + [L("endif")] + G2 + G3), "nested taken": one(lambda e: GOOD + [L("if", I(1)), L("if", I(0)), L("elsif", I(1))] + e + [L("endif"), L("endif")] + G2 + G3), "in skipped": one(lambda e: GOOD + [L("if", I(0)), L("if", I(1))] + e + [L("endif"), L("endif")] + G2 + G3),
        "after END": one(lambda e: GOOD + G2 + G3 + [L("end")] + e), "later pass": one(lambda e: [L("if", S("fwd"))] + e + [L("endif"), L("equ", I(1), label="fwd")]), "first pass only": one(lambda e: [L("if", U("!", S("fwd")))] + e + [L("endif"), L("equ", I(1), label="fwd")]),
        "section": one(lambda e: GOOD + [L("section", STR("sa")), L("org", I(0x3000))] + e + [L("code")] + G2 + G3), "before ORG": one(lambda e: e + [L("org", I(0x2000))] + GOOD + G2 + G3), "called from include": lambda e: ({"a.s": GOOD + mac(e, False) + [L("include", STR("i1"))] + G2 + G3, "i1": [L("nop"), L("pm")]}, ("a.s",)),
        "line 300": one(lambda e: [L("nop")] * 299 + e),
    }
    return pl


PL = places()
OUTS = ["o", "l", "s", "e"]
FM = list(FMT)


def all_located(ref, err, strict):
    c = [e for e in ref.errors if e[0] == ref.level and e[2] > 0]
    if not c or any(e[3] == "unfinished macro" for e in c):     # that, and what is then missing, is reported under the macro's name
        return None
    ok = [("%s:%d:" % (e[1], e[2])) in err for e in c]
    return None if (all(ok) if strict else any(ok)) else [(e[1], e[2], e[3]) for e, o in zip(c, ok) if not o][:5]


def judge(w, files, main, what, fmt, opts=(), strict=True, **kw):
    f = dict(files)
    f.update({k: v for k, v in INC.items() if any(l.op and l.args and l.args[0] == STR(k) for ls in files.values() for l in ls)})
    try:
        ref = reference(f, main, **kw)
    except ISA.DontCare:
        w.stats.outcome("unspecified")
        return None
    txt = {n: RA.text(ls) for n, ls in f.items()}
    args = opt_args(kw) + list(opts) + [FMT[fmt], "-o", "o", "-l", "l", "-s", "s", "-E", "e"] + list(main)
    w.stats.transitions += sum(len(ls) for ls in f.values())
    w.stats.state((what, tuple(sorted(set(e[:3] for e in ref.errors if e[0] == ref.level))) if not ref.ok else "ok", fmt))

    def go():
        return w.run(args, txt, OUTS)
    r = go()
    src = " / ".join(x for x in txt[main[0]].split("\n") if x)[:300]
    exp = expect_format(ref, fmt)
    got = got_format(r, fmt)
    if exp[0] == "img" and exp[2] is None and len(got) > 2:
        got = got[:2] + (None,)
    if got != exp:
        w.bad("%s: %s" % (what, src), args, txt, showf(exp) + ("" if ref.ok else "; errors %s" % [(e[1], e[2], e[3]) for e in ref.errors if e[0] == ref.level][:4]), showf(got) + " " + r.err[:200], recheck=lambda: go().key() == r.key())
        return ref
    if exp[0] == "fail":
        w.stats.outcome("rejected")
        if not ref.ok and ref.level != RA.DATA:
            if r.files:
                w.bad("%s: %s" % (what, src), args, txt, "no output files", sorted(r.files), recheck=lambda: go().key() == r.key())
            miss = all_located(ref, r.err, strict)
            if miss:
                w.bad("%s: %s" % (what, src), args, txt, "diagnostics naming %s" % miss, r.err[:400], recheck=lambda: go().key() == r.key())
        if w.stats.traces % 997 == 0:
            w.stats.sample(src[-200:] + "  =>  " + r.err[:200])
    else:
        w.stats.outcome("assembled")
        if sorted(r.files) != sorted(OUTS):
            w.bad("%s: %s" % (what, src), args, txt, "every requested file", sorted(r.files), recheck=lambda: go().key() == r.key())
    return ref


def singles(w, arg):
    """Every error, in every place."""
    i = 0
    for (k, e), (pn, pf) in w.mine(itertools.product(FLAT, PL.items())):
        files, main = pf(e)
        i += 1
        for j, o in enumerate(([], ["-q"], ["-v"])):
            judge(w, files, main, "%s, %s" % (k, pn), FM[(i + j) % 5], o)
        if DEEP:
            for fmt in FM:
                judge(w, files, main, "%s, %s" % (k, pn), fmt, isa=3)


def pairs(w, pls):
    """Every pair of errors: neither hides the other's failure; with lines between."""
    for (k, e), (k2, e2) in w.mine(itertools.product(FLAT, repeat=2)):
        for pn in pls:
            files, main = PL[pn](e + [L("nop")] + e2)
            judge(w, files, main, "%s then %s, %s" % (k, k2, pn), "srec", strict=True)
        if k != "blocks" and k2 != "blocks":
            judge(w, {"a.s": e + GOOD + G2, "b.s": G3 + e2}, ("a.s", "b.s"), "%s, %s in two files" % (k, k2), "srec", strict=True)
            judge(w, {"a.s": [L("include", STR("i1"))] + GOOD + G2 + e2, "i1": e + G3}, ("a.s",), "%s in an include, %s" % (k, k2), "srec", strict=True)


def inconsistent(w, arg):
    """Every error in a program whose last pass would be inconsistent, or that needs n passes; every --max-passes."""
    for (k, e), n, mp in w.mine(itertools.product(FLAT, (0, 1, 3, 8, 14), (2, 3, 12))):
        ch = [L("equ", B("+", S("c%d" % (i + 1)), I(1)), label="c%d" % i) for i in range(n)] + [L("equ", I(5), label="c%d" % n)]
        judge(w, {"a.s": [L("fdb", S("c0"))] + ch + e}, ("a.s",), "%s after a chain of %d" % (k, n), "srec", max_passes=mp, strict=True)
        judge(w, {"a.s": e + [L("fdb", S("c0"))] + ch}, ("a.s",), "%s before a chain of %d" % (k, n), "hex", max_passes=mp, strict=True)


def options(w, arg):
    """Failures outside any line, and missing main files."""
    g = RA.text(GOOD + G2 + G3)
    cases = [(["a.s", "missing"], 0), (["missing"], 0), (["missing", "a.s"], 0), ([], 0), (["a.s"], 1), (["-e", "nosuch", "a.s"], 0), (["-e", "good1", "a.s"], 1), (["--bogus", "a.s"], 0), (["-P", "1", "a.s"], 0), (["-P", "256", "a.s"], 0), (["-P", "x", "a.s"], 0), (["--setdp", "x", "a.s"], 0), (["-d", "zz=x", "a.s"], 0), (["-d", "good1", "a.s"], 0),
             (["-d", "zz", "a.s"], 1), (["dir"], 0), (["a.s", "dir"], 0), (["a.s", ""], 0), (["-P"], 0), (["a.s", "-o"], 0), (["a.s", "a.s"], 0), (["-e", "1b", "a.s"], 0), (["-e", "", "a.s"], 0), (["-e", "*", "a.s"], 0)]
    for (a, ok), fmt in w.mine(itertools.product(cases, FM)):
        fs = {"a.s": g, "dir": (1, "")}
        args = [FMT[fmt], "-o", "o", "-l", "l", "-s", "s", "-E", "e"] + a
        r = w.run(args, fs, OUTS)
        w.stats.state((tuple(a), fmt))
        w.stats.transitions += 1
        w.stats.outcome("run" if ok else "refused")
        if (not r.ok or sorted(r.files) != sorted(OUTS)) if ok else (not r.failed or "o" in r.files or not r.err.strip()):
            w.bad("options %s" % a, args, fs, "success and all files" if ok else "failure, diagnostic, no output", "%s %s %s" % (r.status(), sorted(r.files), r.err[:200]))
    # a file that ends anywhere: every prefix of a program
    src = RA.text([L("org", I(0x100)), L("macro", label="pm"), L("fcc", STR("a", 1, "b")), L("endm"), L("if", B("==", I(1), I(1))), L("pm", STR("x")), L("lda", ("list", (I(5), R("x")))), L("elsif", I(0)), L("else"), L("endif"), L("fdb", B("*", B("+", I(1), I(2)), I(3)), label="lab")])
    good = {}
    for n in w.mine(range(len(src) + 1)):
        t = src[:n]
        r = w.run(["-S", "-o", "o", "a.s"], {"a.s": t}, ["o"])
        w.stats.state(("prefix", n))
        w.stats.transitions += 1
        op = t.count("\tif\t") > t.count("\tendif") or t.count("\tmacro") > t.count("\tendm")
        last = t.split("\n")[-1]
        un = op or last.count('"') % 2 or last.count("(") > last.count(")") or last.count("[") > last.count("]") or last[-1:] in "+*=" and last[-1:]
        if un and (not r.failed or "o" in r.files or "a.s:" not in r.err and "pm:" not in r.err):
            w.bad("truncated file", ["-S", "-o", "o", "a.s"], {"a.s": t}, "failure with a located diagnostic", "%s %s" % (r.status(), r.err[:200]))


def far(w, arg):
    """Errors at lines around every power of two, in a file, the second file, an included file and a macro."""
    ns = sorted({n for b in range(1, 18 if DEEP else 17) for n in ((1 << b) - 1, 1 << b, (1 << b) + 1)} | {9999, 10000, 99999, 100000, 131071, 131072})
    fills = ["\n", "; c\n", " page\n"]
    errs = [" fcb undef1\n", " bogus\n", " ,\n", "\tbra\t*+200\n"]
    for n, e, fi in w.mine(itertools.product(ns, errs, fills)):
        t = fi * (n - 1) + e + fi * 20
        for files, args, name in (({"a.s": t}, ["a.s"], "a.s"), ({"a.s": " nop\n nop\n", "b.s": t}, ["a.s", "b.s"], "b.s"), ({"a.s": " nop\n include \"i.s\"\n", "i.s": t}, ["a.s"], "i.s"), ({"a.s": "mm macro\n" + t + " endm\n nop\n mm\n"}, ["a.s"], "mm")):
            if name == "mm" and e == errs[2]:
                name, m = "a.s", n + 1
            else:
                m = 1 if name == "mm" and fi != fills[2] else n
            args = ["-o", "o"] + args
            r = w.run(args, files, ["o"])
            w.stats.state((n, e, name))
            w.stats.transitions += n
            w.stats.outcome("far line")
            got = [re.search(r"(\S+?):(\d+):", x).groups() for x in r.err.split("\n") if re.search(r"(\S+?):(\d+):", x)]
            if not r.failed or "o" in r.files or got != [(name, str(m))]:
                w.bad("error at line %d" % n, args, files, "failure naming %s:%d" % (name, m), r.status() + " " + r.err[:200])


def blocks(w, n):
    """Every arrangement of opening and closing lines, complete or not, in every place."""
    al = [[L("if", I(1))], [L("if", I(0))], [L("else")], [L("elsif", I(1))], [L("endif")], [L("macro", label="bm")], [L("macro", label="bn")], [L("endm")], [L("fcb", I(1))], [L("bm")]]
    pl = ["alone", "middle", "include", "macro", "skipped", "second file", "first file", "include in macro"]
    for s in w.mine(seqs(range(len(al)), n)):
        e = cat([al[i] for i in s])
        for i, pn in enumerate(pl[:1] if len(s) == n else pl):
            files, main = PL[pn](e)
            judge(w, files, main, "blocks, %s" % pn, FM[(i + len(s)) % 5])


PSEUDO = set("equ set org section code data bss ram auto fcb fcc fcn fcv fci fcs fdb fqb rzb fzb zmb bsz fill rmb align includebin put setdp include lib end page opt spc ttl sttl nam name if elsif else endif macro endm export".split())
WITHARGS = ["equ", "set", "org", "section", "fcb", "fcc", "fcn", "fcv", "fci", "fcs", "fdb", "fqb", "rzb", "fzb", "zmb", "bsz", "fill", "rmb", "align", "includebin", "put", "setdp", "include", "lib", "end", "page", "opt", "spc", "ttl", "sttl", "nam", "name", "if", "elsif", "export", "code", "data", "bss", "ram", "auto", "else", "endif", "macro"]
ARGV = [I(1), STR("f"), R("x"), EMPTY, S("ks"), S("kf"), S("undef1"), ("list", (I(1),)), P("#", I(2)), ("flt", 2.5), R("a", ""), R("y", "++")]


def counts(w, arg):
    """Every directive with every list of arguments of every type."""
    n = 3 if DEEP else 2
    few = [I(1), STR("f"), EMPTY, S("kf")]
    ls = list(seqs(ARGV, n)) + [x for x in seqs(few, n + 2) if len(x) > n]
    tail = [L("fcb", I(9)), L("equ", STR("f"), label="ks"), L("equ", I(1), label="kf")]
    fs = {"f": [L("nop")]}
    for op, a in w.mine(itertools.product(WITHARGS, ls)):
        if op in ("opt", "ttl", "sttl", "page", "spc", "nam", "name", "export") and S("undef1") in a or op == "export" and STR("f") in a or op in ("equ", "set") and ("list", (I(1),)) in a:
            continue
        p = {"if": [L("if", *a), L("endif")], "elsif": [L("if", I(0)), L("elsif", *a), L("endif")], "else": [L("if", I(0)), L("else", *a), L("endif")], "endif": [L("if", I(1)), L("endif", *a)], "macro": [L("macro", *a, label="mm"), L("endm"), L("mm")]}.get(op)
        if p is None:
            p = [L(op, *a, label="zl" if op in ("equ", "set") else None)]
        bins = {}
        files = {"a.s": p + tail}
        files.update(fs)
        judge(w, files, ("a.s",), "arguments of " + op, "srec", bins=bins)
        # the same through a macro, which is passed one argument more (so that a single one may be empty)
        if a and len(a) <= n and op not in ("export", "macro", "opt", "ttl", "sttl", "equ", "set", "page", "spc", "nam", "name"):
            q = [L("macro", label="mz")] + [Line(l.label, l.op, [A(i + 1) for i in range(len(a))] if l.op == op else l.args) for l in p] + [L("endm"), L("mz", *(list(a) + [I(9)]))]
            judge(w, {"a.s": q + tail, "f": fs["f"]}, ("a.s",), "arguments from a macro's of " + op, "srec", bins=bins)


def endm(w, arg):
    """ENDM with every list of arguments, at every depth of definition."""
    for a in w.mine(seqs(ARGV, 3)):
        t = RA.text([L("endm", *a)]).split("endm", 1)[1].rstrip("\n")
        good = not t.strip() or (len(a) == 1 and a[0] in (STR("f"), S("ks")))
        for k, src in enumerate(("ks\tequ\t\"f\"\nkf\tequ\t1\nmm\tmacro\n\tfcb\t1\n\tendm%s\n\tmm\n", "ks\tequ\t\"f\"\nkf\tequ\t1\nmo\tmacro\nmm\tmacro\n\tfcb\t1\n\tendm%s\n\tendm\n\tmo\n\tmm\n", "ks\tequ\t\"f\"\nkf\tequ\t1\n\tinclude\t\"i\"\n\tmm\n")):
            f = {"a.s": src % t if "%" in src else src, "i": "mm\tmacro\n\tfcb\t1\n\tendm%s\n" % t}
            args = ["-o", "o", "a.s"]
            r = w.run(args, f, ["o"])
            w.stats.transitions += 1
            w.stats.state((a, k))
            w.stats.outcome("assembled" if r.ok else "rejected")
            if r.ok != good or (good and (r.files.get("o") != b"\x01" or r.err)) or (not good and ("o" in r.files or not r.failed or "mm:1:" not in r.err)):
                w.bad("ENDM" + t, args, f, "accepted" if good else "an error in mm", r.status() + " " + r.err[:200], recheck=lambda: w.run(args, f, ["o"]).key() == r.key())


CH = "abcdefghijklmnopqrstuvwxyz0123456789_."


def names(w, arg):
    """Every short word and every word one edit away from a mnemonic or directive: an error unless it is one."""
    for isa in (9, 3):
        known = set(ISA.OPS[isa]) | PSEUDO | set(ISA.REGS[isa])     # a register here cannot be parsed, which ends the file
        new = sorted((set(ISA.OPS[3]) - known) | {a + b + c for a in CH[:26] + "_" for b in [""] + list(CH) for c in ([""] + list(CH) if b else [""])} - known)
        for k in sorted(known):
            new += sorted(({k[:i] + c + k[i:] for i in range(len(k) + 1) for c in CH} | {k[:i] + c + k[i + 1:] for i in range(len(k)) for c in CH} | {k[:i] + k[i + 1:] for i in range(len(k))} | {k + "..", k + k, k + "." + k, k + ".w", k + ".b.w"}) - known)
        new = [x for x in new if x and x[0] in CH[:26] + "_"]
        for i in w.mine(range(0, len(new), 500)):
            ns = new[i:i + 500]
            for f in ("\t%s\n", "lab%d\t%s\t#5\n", "\t%s\t1,2 c\n") if DEEP or i % 2000 == 0 else ("\t%s\n",):
                t = "".join(f % x if "%d" not in f else f % (j, x) for j, x in enumerate(ns))
                args = ["-%d" % isa, "-S", "-o", "o", "a.s"]
                r = w.run(args, {"a.s": t}, ["o"])
                w.stats.transitions += len(ns)
                w.stats.state((isa, i, f))
                w.stats.outcome("unknown words")
                got = {int(x) for x in re.findall(r"a\.s:(\d+):", r.err)}
                miss = [ns[j] for j in range(len(ns)) if j + 1 not in got]
                if not r.failed or r.files or miss:
                    w.bad("unknown instruction %s" % (miss[:3] or ns[:3]), args, {"a.s": t}, "failure naming every line", "%s, %d of %d lines named %s" % (r.status(), len(got), len(ns), r.err[:100]))


def main():
    c = Check("C17")
    c.explore(names)
    c.bounds = ["%d erroneous line groups (%s) x %d places, in quiet, default and verbose mode, output formats in turn%s" % (len(FLAT), ", ".join("%s %d" % (k, len(v)) for k, v in KINDS.items()), len(PL), " and all formats and both processors" if DEEP else ""),
                "all %d ordered pairs of them in %s, over two files and over an include" % (len(FLAT) ** 2, "all places" if DEEP else "3 places"), "each with EQU chains of 5 lengths and 3 --max-passes values", "%d option faults x 5 formats; every truncation of a program" % 24]
    c.assumptions = ["reference assembler lib/refasm.py: which lines are erroneous; only errors of the highest severity need to be printed", "the line of an unfinished macro is reported under the macro's name"]
    c.bounds.append("every word of up to 3 characters and every word one edit away from a mnemonic or directive that is neither, both processors")
    c.bounds.append("four errors at the lines around every power of two up to 2^%d after blank, comment and other lines, in files, second files, included files and macros" % (17 if DEEP else 16))
    c.explore(blocks, 5 if DEEP else 4)
    c.bounds.append("every sequence of up to %d of 10 opening and closing lines, those of up to %d in 8 places" % ((5, 4) if DEEP else (4, 3)))
    c.explore(counts)
    c.explore(endm)
    c.bounds.append("every list of up to %d of %d arguments, and longer ones of 4, for each of %d directives and for ENDM, direct and through a macro" % (3 if DEEP else 2, len(ARGV), len(WITHARGS)))
    for f in (singles, inconsistent, options, far):
        c.explore(f)
    c.explore(pairs, list(PL) if DEEP else ["middle", "macro", "taken"])
    c.finish()
