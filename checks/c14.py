"""C14: the listing."""
import itertools, re
import isa as ISA
import refasm as RA
from common import expectation, observed, opt_args, show, reference
from explore import *
from refasm import L, I, S, STR, B, U, T, A, PC, P, R, ID, Line
from contexts import CTX, surround
from run import Check, TIER

DEEP = TIER == "thorough"
PREFIX = re.compile(r"^ *(?:([0-9A-F]{4}) +((?:[0-9A-F]{2} ?)*))? *$")
INC = {"i.s": [L("fcb", I(0x51)), Line(raw="* in the include"), L("fdb", PC, label="ilab")], "k.s": [L("include", STR("j.s")), L("fcb", I(0x53))], "j.s": [L("nop")]}
SHY = ("section", "code", "data", "bss", "ram", "auto", "put", "setdp", "end", "include", "includebin", "export", "page", "opt", "nam", "name", "title", "spc", "pragma")
BIN = {"b.bin": bytes((i * 37 + 1) & 255 for i in range(150))}


def copy(l):
    return Line(l.label, l.op, l.args, l.raw, l.bad)


def judge(w, files, main, r, ref, texts):
    """None, or what is wrong with the listing."""
    if "l" not in r.files:
        return "no listing", ""
    t = r.files["l"].decode("latin-1")
    if t and not t.endswith("\n"):
        return "last line unfinished", t[-80:]
    got = t[:-1].split("\n") if t else []
    for i, (pc, data, l) in enumerate(ref.rows):
        want = texts[id(l)].expandtabs(8)
        what = "line %d of the listing: %s%s, text %r" % (i + 1, "" if not data else "%04X " % pc, data.hex().upper(), want)
        if i >= len(got):
            return what, "listing ends after %d lines" % len(got)
        g = got[i]
        if not g.endswith(want):
            return what, repr(g)
        m = PREFIX.match(g[:len(g) - len(want)])
        # the source text may not run into the code before it
        if not m or (want and m.group(1) and g[len(g) - len(want) - 1] != " "):
            return what, repr(g)
        b = bytes.fromhex((m.group(2) or "").replace(" ", ""))
        if b != bytes(data):
            return what, repr(g)
        # an address is that of the line or the value of its symbol; directives need not show one
        if pc is not None and (m.group(1) or data or l.lop not in SHY) and (not m.group(1) or int(m.group(1), 16) != pc):
            return what + ", address %04X" % pc, repr(g)
    if len(got) > len(ref.rows):
        return "%d lines" % len(ref.rows), "more: %r" % got[len(ref.rows)]
    return None


def check_listing(w, files, main=("a.s",), suffix=None, what="", **kw):
    if not isinstance(files, dict):
        files = {"a.s": files}
    files = {n: [copy(l) for l in ls] for n, ls in files.items()}
    texts, k = {}, 0
    for n, ls in files.items():
        for l in ls:
            t = RA.line(l)
            if suffix and l.raw is None:
                x = suffix[k % len(suffix)]
                k += 1
                t = x(t) if callable(x) else t + x
            texts[id(l)] = t
    try:
        ref = reference(files, main, rows=True, **kw)
    except ISA.DontCare:
        w.stats.outcome("unspecified")
        return
    exp = expectation(ref)
    if exp[0] != "ok":
        w.stats.outcome("rejected")
        return
    w.stats.transitions += len(ref.rows)
    w.stats.state(tuple((pc if d else None, bytes(d), texts[id(l)]) for pc, d, l in ref.rows))
    w.stats.outcome("listed")
    txt = {n: "".join(texts[id(l)] + "\n" for l in ls) for n, ls in files.items()}
    for n, d in (kw.get("bins") or {}).items():
        txt[n] = d
    args = opt_args(kw) + ["-q", "-S", "-o", "o", "-s", "s", "-l", "l"] + list(main)

    def go():
        return w.run(args, txt, ["o", "s", "l"])
    r = go()
    again = lambda: go().key() == r.key()
    got = observed(r)
    src = " / ".join(x for x in txt[main[0]].split("\n"))[:300]
    if got != exp:
        w.bad("%s with listing: %s" % (what, src), args, txt, show(exp), show(got) + r.err[:200], recheck=again)
        return
    x = judge(w, files, main, r, ref, texts)
    if x:
        w.bad("%s: %s" % (what, src), args, txt, x[0], x[1], recheck=again)
    elif w.stats.traces % 499 == 0:
        w.stats.sample(r.files["l"].decode("latin-1")[:300])


M = [L("macro", label="mm"), L("fcb", A(1)), Line(1), L("fdb", B("+", A(1), I(1)), label=ID("lm", 1)), L("endm")]
M2 = [L("macro", label="nest"), L("mm", A(1)), L("rmb", I(1)), L("mm", B("+", A(1), I(1))), L("endm")]
OPS = [[L("nop", label="la")], [L("lda", P("#", I(5)))], [L("ldx", S("fwd"))], [L("leax", S("fwd"), R("pcr"))], [L("ldq", P("#", I(0x12345678)))], [L("tim", P("#", I(1)), I(0x4321))], [L("fcb", *[I(i) for i in range(20)])],
       [L("fcc", STR("text; *")), ], [L("fdb", PC, S("fwd"))], [L("fqb", I(1), I(-1))], [L("rzb", I(0))], [L("rzb", I(140))], [L("fill", I(7), I(3), )], [L("rmb", I(3), label="lr")], [L("rmb", I(0))],
       [L("align", I(16))], [L("align", I(16), I(0x44))], [L("align", I(1))], [L("org", I(0x2000))], [L("org", I(0x1f00), label="lo")], [L("put", I(0x3000))], [L("section", STR("sa"))], [L("data", label="ld")], [L("code")],
       [L("equ", I(5), label="eq")], [L("set", B("+", PC, I(1)), label="qs")], [L("if", I(1)), L("fcb", I(0x31)), L("else"), L("fcb", I(0x32)), L("endif")], [L("if", I(0)), L("nop"), L("elsif", I(1)), L("fcb", I(0x33)), L("endif")],
       [L("mm", I(0x41))], [L("nest", I(0x61))], [L("include", STR("i.s"))], [L("include", STR("k.s"))], [L("includebin", STR("b.bin"))], [L("end", I(0x1234))], [Line("alone")], [Line(1)], [Line(raw="")], [Line(raw="; comment")],
       [Line(raw="* star\tcomment ")], [Line(raw="  ")], [L("setdp", I(0x20))], [L("export", S("fwd"))], [L("opt", S("xyz"))], [L("macro", label="late"), L("fcb", I(1)), L("endm")], [L("bra", ("f", 1))], [L("page")], [L("fcs", STR("ab"), I(3))],
       [L("fcn", STR("n"))], [L("nop"), L("rmb", I(130)), L("nop")], [L("equ", U("-", I(3)), label="en")], [L("equ", I(0x12345), label="eb")], [L("org", U("-", I(256))), L("equ", PC, label="ep"), L("rmb", I(256), label="er")], [L("lda", P("#", I(5)), label="lr9")]]
TAIL = [L("nop", label="fwd"), Line(1)]
HEAD = M + M2 + [L("org", I(0x20f0))]
SUF = ["", " ; comment", "   ", "\t\t; tab\tcomment", " trailing words", "\t", ";x"]


def histories(w, n):
    al = range(len(OPS))
    if DEEP:
        gen = seqs(al, 3)
    else:
        core = [0, 3, 6, 10, 11, 13, 15, 16, 18, 20, 21, 23, 26, 28, 30, 32, 35, 38]
        gen = itertools.chain(seqs(al, 2), itertools.product(core, repeat=3))
    for s in w.mine(gen):
        f = {"a.s": HEAD + cat([OPS[i] for i in s]) + TAIL}
        f.update(INC)
        check_listing(w, f, isa=3, bins=BIN, what="history")


def texts(w, arg):
    """Comments, trailing white space, tabs, case, CR: the text of every line is preserved."""
    def tabs(t):
        return t.replace("\t", "   \t  ")

    def up(t):
        return t.upper() if not any(c in t for c in "\"'") else t
    for o, k in w.mine(itertools.product(range(len(OPS)), range(len(SUF)))):
        f = {"a.s": HEAD + OPS[o] + TAIL}
        f.update(INC)
        # free text may not follow everything: only complete operands
        suf = [SUF[k]] if SUF[k] != " trailing words" else [lambda t: t + " trailing words" if t.endswith(("5", "$4321")) else t]
        check_listing(w, f, suffix=suf, isa=3, bins=BIN, what="text")
        check_listing(w, f, suffix=[lambda t: tabs(t) + SUF[k] if SUF[k][:1] != " trailing"[:1] else tabs(t)], isa=3, bins=BIN, what="text with tabs")
    for n in w.mine(list(range(1, 60)) + [100, 200, 1000, 4094, 4095, 4096, 4097, 8188, 8189, 8190, 8191, 8192, 8193, 16383, 16384, 20000]):
        for c in ("x", " ", "\t"):
            check_listing(w, [L("fcb", I(1)), Line(raw="; " + c * n), L("fcb", I(2))], what="long comment")
            check_listing(w, [L("fcb", I(1)), L("nop"), L("fcb", I(2))], suffix=["", " ;" + c * n, ""], what="long line")
        check_listing(w, [L("fcb", *[I(i % 10) for i in range(n)])] + [L("fdb", PC)] * 2, what="many bytes")
        check_listing(w, [L("fcc", STR("y" * n), label="lab"), L("fdb", PC)], what="long string")


def sizes(w, arg):
    """Bytes of lines at every distance into a block, in second blocks and after returning to a section."""
    em = [[L("nop")], [L("ldx", P("#", I(0x1234)))], [L("fcb", *[I(i) for i in range(9)])], [L("fill", I(5), I(40))], [L("align", I(8), I(3))], [L("rmb", I(2)), L("nop")]]
    for k, e in w.mine(itertools.product(range(0, 300 if DEEP else 140), em)):
        check_listing(w, [L("org", I(0x100)), L("fill", I(0xcc), I(k))] + e + [L("fdb", PC)], what="after %d bytes" % k)
        check_listing(w, [L("org", I(0x100)), L("fcb", I(1)), L("section", STR("sa")), L("fill", I(0xcc), I(k))] + e + [L("code"), L("fdb", PC), L("org", I(0x4000))] + e + [L("section", STR("sa"))] + e, what="after %d bytes in sections" % k)
    for a in w.mine([0, 1, 0xff, 0x100, 0x7fff, 0x8000, 0xfff0, 0xfffe, 0xffff]):
        for e in em[:2] + em[4:]:
            for p in (None, 0x20, 0x8000, 0xffff):
                check_listing(w, [L("org", I(a))] + ([L("put", I(p))] if p else []) + e, what="address")
    for main in w.mine([("a.s", "b.s"), ("b.s", "a.s"), ("a.s", "b.s", "c.s")]):
        check_listing(w, {"a.s": [L("nop", label="aa"), Line(raw="; a"), L("ldx", S("bb"))], "b.s": [L("fdb", PC, label="bb")], "c.s": [L("end"), L("bogus")]}, main, what="several files")


def spans(w, arg):
    """Blocks whose run and put addresses are continued, overlapped or left apart, independently."""
    ds = [None, -300, -4, -3, -2, -1, 0, 1, 2, 5, 300]
    em = [[L("nop")], [L("fcb", I(1), I(2), I(3))], [L("fill", I(5), I(130))]]
    for a, b, x, y in w.mine(itertools.product(ds, ds, em, em)):
        n = 130 if x is em[2] else len(x[0].args) or 1
        mv = ([L("org", I(0x1000 + n + a))] if a is not None else []) + ([L("put", I(0x1000 + n + b))] if b is not None else [])
        for pre in ([L("org", I(0x1000))], [L("section", STR("sa")), L("org", I(0x1000))]):
            for back in ([], [L("section", STR("sb")), L("nop"), L("section", STR("sa")) if len(pre) > 1 else L("code")]):
                check_listing(w, pre + x + back + mv + y + [L("fdb", PC), L("nop")], what="spans")
                if mv and DEEP:
                    check_listing(w, pre + x + mv + y + back + mv + y, what="spans")


def deep(w, arg):
    """Lines far into a block, behind gaps of every magnitude, with and without addresses of the other kind."""
    em = [[L("fcb", I(2), I(3))], [L("ldx", P("#", S("fwd")))], [L("fcc", STR("abc"))], [L("align", I(4), I(9))], [L("mm", I(0x41))]]
    for k in w.mine(sorted({(1 << i) + d for i in range(8, 17) for d in (-3, -2, -1, 0, 1) if (1 << i) + d <= 0xffef} | {0x1234, 0xa5a5, 0x9000, 0xd001})):
        for e in em:
            for gap in ([L("fill", I(1), I(k))], [L("rzb", I(k))], [L("rzb", I(k // 2)), L("nop"), L("fill", I(7), I(k - k // 2 - 1))]):
                check_listing(w, M[:] + [L("org", I(0))] + gap + e + [L("fdb", PC, label="fwd")], what="far into a block")
                if k < 0xf000:
                    check_listing(w, M[:] + [L("org", I(0x234)), L("put", I(0x100))] + gap + [L("section", STR("sa"), ), L("nop"), L("code")] + e + [L("fdb", PC, label="fwd")], what="far into a block")
            check_listing(w, M[:] + [L("org", I(0)), L("rmb", I(k))] + e + e + [L("fdb", PC, label="fwd")], what="behind reserved bytes")


def surrounded(w, arg):
    """The listing of every kind of line in every kind of surroundings."""
    surround(w, ([l for l in HEAD if l.lop != "org"] + o + TAIL for o in OPS), "listing", run=check_listing, extra=INC, isa=3, bins=BIN)
    core = [OPS[i] for i in (0, 3, 6, 10, 11, 13, 15, 18, 20, 21, 26, 28, 32)]
    surround(w, ([l for l in HEAD if l.lop != "org"] + cat(s) + TAIL for s in seqs(core, 3 if DEEP else 2, 2)), "listing", run=check_listing, extra=INC, isa=3, bins=BIN)


def main():
    c = Check("C14")
    c.bounds = ["every pair (%s) of %d kinds of lines or groups of lines, with forward references that take several passes" % ("and triple" if DEEP else "and triple of 18", len(OPS)),
                "every kind of line with 7 kinds of trailing text and with extra tabs; lines and comments of up to 20000 characters", "every amount 0..%d already emitted x 6 emitters, in one and several blocks and sections; 11 x 11 ways of moving run and put address between two of 3 emitters" % (299 if DEEP else 139), "5 kinds of lines behind 2**8 .. 2**16 (-3..+1) bytes of data or of reserved space"]
    c.assumptions = ["reference assembler lib/refasm.py", "column widths are unspecified, and whether directives that neither emit nor define a value show the address they are at"]
    for f in (histories, texts, sizes, spans, deep):
        c.explore(f)
    c.explore(surrounded)
    c.bounds.append(CTX % "every kind of line and pairs of 13 kinds")
    c.finish()
