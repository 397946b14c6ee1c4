"""C24: END and the EXEC address."""
import itertools
import refasm as RA
from common import check_prog, check_formats, reference, FMT, expect_format, got_format, showf
from explore import *
from refasm import L, I, S, STR, B, U, T, A, PC, P, R, V, Line
from contexts import CTX, surround
from run import Check, TIER

DEEP = TIER == "thorough"
N = L("fcb", I(9))
BODY = [L("org", I(0x1000)), L("nop", label="st"), L("lda", S("fwd"), label=1), L("rmb", I(3)), L("fcb", I(1), label="fwd"), L("equ", I(0x4321), label="kk"), L("section", STR("s2")), L("fcb", I(2), label="other"), Line(1)]
ENDOPS = [None, I(0), I(1), I(0xff), I(0x100), I(0x7fff), I(0x8000), I(0xffff), I(0x1000), S("st"), S("fwd"), S("kk"), S("other"), S("undef"), PC, B("+", S("st"), I(3)), B("-", S("fwd"), S("st")), ("b", 1), ("f", 1), STR("A"), STR("AB"), ("flt", 4660.75),
          T(I(1), I(0x55), I(0x66)), U("~", I(-0x1234)), B("&", S("kk"), I(0xff00)), R("x"), P("#", I(5)), B("/", I(9), I(2)), B("%", I(9), I(0))]
# what may stand after END: each must have no effect
AFTER = [" nop", " fcb 1,2,3", "st equ 7", "st nop", " org 0", " end 5", " end", " bogus", " lda", " lda #", "?bad", " if 1", " endif", " else", "m macro", " endm", " include \"missing\"", " includebin \"missing\"", "\"", " fcb \"unterminated", "/", "(", " fcb (", " fcb 1 +", " bra undefinedsymbol", " export nope", "1 nop", "!", "\\1", "&{", "* c", "; c", "", "\x01\x02", "\xff\xfe", " section \"q\"", " put $100", " setdp 3", " mm", "later equ 5", " lda [", " tfr a,x", " fcb 99999999999999999999999", " fill", "@", "$", "%", "&1 nop", ",,,", "x" * 3000]
HEADS = {"plain": ["start nop", " fdb later0", "later0 equ 5"], "local": ["1 nop", " bra 1B"], "macro": ["mm macro", " fcb 1", " endm", " mm"]}


def operands(w, arg):
    """END operands x what precedes x --exec x formats."""
    execs = [None, 0, 1, 0x1234, 0xffff, "st", "fwd", "kk", "other", "undef"]
    for e, x in w.mine(itertools.product(ENDOPS, execs)):
        end = [L("end", *([] if e is None else [e]))]
        for pre in range(len(BODY) + 1):
            check_formats(w, BODY[:pre] + end + BODY[pre:], what="END operand", exec_opt=x)
        for tail in ([], BODY):
            check_formats(w, BODY + end + tail, what="END operand", exec_opt=x)
            check_formats(w, {"a.s": BODY[:4] + end + tail, "b.s": BODY[4:]}, ("a.s", "b.s"), what="END in the first file", exec_opt=x)
            check_formats(w, {"a.s": BODY[:4], "b.s": BODY[4:] + end + tail}, ("a.s", "b.s"), what="END in the second file", exec_opt=x)
            check_formats(w, {"a.s": BODY[:4] + [L("include", STR("b.s"))] + BODY[4:6], "b.s": [N] + end + tail}, what="END in an include", exec_opt=x)
            check_formats(w, {"a.s": BODY[:4] + [L("include", STR("b.s"))] + BODY[4:6] + [L("end")] + tail, "b.s": [N] + end + tail}, what="END in an include and after", exec_opt=x)
            check_formats(w, BODY[:4] + [L("if", I(1))] + [N] + [L("endif")] + end + [L("endif"), L("else")], what="END after IF", exec_opt=x)


def values(w, arg):
    """Every EXEC value (or a step through them) by END and by --exec."""
    for v in w.mine(sorted(set(range(0, 65536, 1 if DEEP else 37)) | set(range(0, 300)) | set(v & 0xffff for k in range(17) for v in ((1 << k) - 1, 1 << k, (1 << k) + 1)))):
        for ends, x in (([L("end", I(v))], None), ([], v), ([L("end", I(v ^ 0xa5a5))], v), ([L("end", S("here"))], None)):
            if x is None or v < 0x10000:
                p = [L("org", I(v if ends and not isinstance(ends[0].args[0], tuple) else v)), L("fcb", I(1), label="here")] + ends
                check_formats(w, p, what="EXEC value", exec_opt=x)


def single(w, args, files, want, what, fmt="srec"):
    a = [FMT[fmt], "-o", "o"] + args
    r = w.run(a, files, ["o"])
    w.stats.outcome(what)
    w.stats.transitions += 1
    w.stats.state((fmt, want[0], want[2:], tuple(args)))
    got = got_format(r, fmt)
    if got != want:
        w.bad("%s: %s" % (what, " ".join(args)), a, files, showf(want), showf(got) + r.err[:200], recheck=lambda: w.run(a, files, ["o"]).key() == r.key())


def notations(w, arg):
    """--exec in every notation and spelling; malformed ones."""
    src = {"a.s": " org $2000\nst nop\nkk equ $1234\nneg equ -1\nflt equ 256.0\nstr equ \"A\"\nreg equ x\n_x.y equ 77\n"}
    vals = sorted(set(range(0, 65536, 7 if DEEP else 501)) | set(range(0, 40)) | {0xff, 0x100, 0xffff, 0x7fff, 0x8000})
    im = {0x2000: 0x12}
    for v in w.mine(vals):
        for t in ("%d" % v, "$%x" % v, "$%X" % v, "0x%x" % v, "@%o" % v, "%%%s" % bin(v)[2:], "0b%s" % bin(v)[2:]):
            for form in (["-e", t], ["-e" + t], ["--exec", t], ["--exec=" + t]):
                for fmt in ("srec", "hex", "coco", "dragondos") if form[0] == "-e" else ("srec",):
                    single(w, form + ["a.s"], src, ("img", im, v), "--exec notation", fmt)
                single(w, form + ["a.s"], {"a.s": src["a.s"] + " end st\n"}, ("img", im, v), "--exec over END")
        single(w, ["a.s", "-e", "%d" % v], src, ("img", im, v), "--exec after the file")
    for n, v in w.mine([("st", 0x2000), ("kk", 0x1234), ("flt", 256), ("str", 65), ("_x.y", 77)]):
        for fmt in ("srec", "hex", "coco", "dragondos"):
            for form in (["-e", n], ["-e" + n], ["--exec", n], ["--exec=" + n]):
                single(w, form + ["a.s"], src, ("img", im, v), "--exec symbol", fmt)
                single(w, form + ["a.s"], {"a.s": src["a.s"] + " end $55\n"}, ("img", im, v), "--exec symbol over END", fmt)
    for n in w.mine(["nosuch", "St", "ST", "s", "stt", "", "1x", "$g", "@9", "%3", "0xq", "reg", "1 2", "$", "st+1", "1+1", " st"]):
        for fmt in FMT:
            for form in (["-e", n], ["--exec=" + n]):
                single(w, form + ["a.s"], src, ("fail",), "--exec malformed", fmt)
    # symbols of every value, bound in each way
    for v in w.mine(vals):
        for n, t in [("ll", " org $%x\nll\n" % v), ("ll", "ll equ %d\n" % v), ("ll", "ll equ %d.75\n" % v), ("l5", "m macro\nl\\1 equ %d\n endm\n m 5\n" % v), ("ll", "ll equ kl\nkl equ $%x\n" % v), ("_A.1", " section \"q\"\n org %d\n_A.1\n" % v)]:
            f = {"a.s": " org $2000\nst nop\n" + t}
            for fmt in ("srec", "hex", "coco", "dragondos"):
                single(w, ["-e", n, "a.s"], f, ("img", im, v), "--exec symbol", fmt)
            single(w, ["a.s", "--exec", n], {"a.s": f["a.s"] + " end $55\n"}, ("img", im, v), "--exec symbol over END")
        f = {"a.s": " org $2000\n nop\n"}
        for fmt in ("srec", "coco"):
            single(w, ["-d", "ll=%d" % v, "-e", "ll", "a.s"], f, ("img", im, v), "--exec symbol of --define", fmt)
            single(w, ["-e", "ll", "-d", "ll=$%x" % v, "a.s"], {"a.s": " org $2000\n nop\n end ll\n"}, ("img", im, v), "END symbol of --define", fmt)
    # a symbol known by --define or exported, and one by name only in the second file
    for n, v, a, f in w.mine([("dd", 300, ["-d", "dd=300", "a.s"], src), ("zz", 9, ["a.s", "b.s"], dict(src, **{"b.s": "zz equ 9\n"})), ("set1", 3, ["a.s"], {"a.s": " org $2000\nset1 set 2\n nop\nset1 set 3\n"})]):
        for fmt in ("srec", "hex", "coco", "dragondos"):
            single(w, ["-e", n] + a, f, ("img", im, v), "--exec symbol", fmt)


def after(w, arg):
    """Lines after END, one, two or three of them, whatever they contain."""
    def run(text, extra=()):
        return w.run(["-S", "-o", "o", "-s", "s", "a.s"] + list(extra), {"a.s": text.encode("latin-1"), "b.s": " fcb $bb\n"}, ["o", "s"])
    for (hn, h), endl, extra in w.mine(itertools.product(HEADS.items(), (" end", " end 5", "\tEND", " End ; comment", " end 5 comment"), ((), ("b.s",)))):
        base = "\n".join(h) + "\n" + endl + "\n"
        b = run(base, extra)
        want = (b.ok, b.files)
        w.stats.state((hn, endl, extra))
        if not b.ok or "o" not in b.files:
            w.bad("END ends the input: %r" % base, ["-S", "-o", "o", "a.s"], {"a.s": base}, "exit 0", b.status() + b.err[:200], recheck=lambda: True)
            continue
        for n in (1, 2, 3) if DEEP else (1, 2):
            for t in itertools.product(AFTER, repeat=n):
                for eol, fin in (("\n", "\n"), ("\n", ""), ("\r\n", "\r\n")) if n == 1 else (("\n", "\n"),):
                    text = (base + "\n".join(t)).replace("\n", eol) + fin
                    r = run(text, extra)
                    w.stats.transitions += 1
                    w.stats.outcome("after END")
                    if (r.ok, r.files) != want:
                        w.bad("line after END: %r" % (t,), ["-S", "-o", "o", "-s", "s", "a.s"] + list(extra), {"a.s": text.encode("latin-1"), "b.s": " fcb $bb\n"}, "as without", r.status() + " " + r.err[:200], recheck=lambda: (lambda q: (q.ok, q.files))(run(text, extra)) != want)
        # without the final newline, and with a great many lines after
        for text in (base[:-1], base + " bogus\n" * 3000, base + "x" * 70000, base + " include \"a.s\"\n" * 20):
            r = run(text, extra)
            if (r.ok, r.files) != want:
                w.bad("after END: %r" % text[:200], ["-S", "-o", "o", "-s", "s", "a.s"] + list(extra), {"a.s": text}, "as without", r.status() + " " + r.err[:200], recheck=lambda: True)


OPS = [[N], [L("end")], [L("end", I(0x77))], [L("end", S("st"))], [L("include", STR("e.s"))], [L("include", STR("f.s"))], [Line("st")], [L("fcb", S("u"))], [L("org", I(0x500))], [L("lda", S("st"))], [L("if", I(1)), N, L("endif")], [L("section", STR("q"))], [Line(raw=" ?", bad=True)] ]
FILES = {"e.s": [L("fcb", I(0xe1)), L("end"), L("fcb", I(0xe2))], "f.s": [L("end", I(0x99)), L("bogus")]}


def sequences(w, arg):
    """Sequences of lines over one or two files."""
    n = arg
    for s in w.mine(seqs(range(len(OPS)), n)):
        p = cat([OPS[i] for i in s])
        check_prog(w, dict({"a.s": p}, **FILES), what="sequence with END", symbols=True)
        for k in range(1, len(p)):
            check_prog(w, dict({"a.s": p[:k], "b.s": p[k:]}, **FILES), ("a.s", "b.s"), what="two files with END")


def defaults(w, arg):
    """No END, no --exec: defaults over layouts."""
    parts = [[L("org", I(0x100)), N], [L("org", I(0x4000)), N], [L("put", I(0x3000)), N], [L("section", STR("q")), L("org", I(0x50)), N], [L("rmb", I(5))], [N], [L("org", I(0)), N], [L("org", I(0xfffe)), N], [L("code"), N], [L("put", I(0x9000))]]
    for s in w.mine(seqs(parts, 4 if DEEP else 3)):
        p = cat(s)
        for tail in ([], [L("end")], [L("end", I(0x20))], [L("end", S("nn")), L("equ", I(1), label="nn")]):
            for x in (None, 0x1ff) if len(s) < 4 else (None,):
                check_formats(w, p + tail, what="default EXEC", exec_opt=x, fmts=("srec", "hex", "coco", "dragondos"))


def surrounded(w, arg):
    """END with every operand, and pairs of lines with END, in every kind of surroundings."""
    surround(w, (BODY[1:7] + [L("end", *([] if e is None else [e]))] + tl for e in ENDOPS for tl in ([], BODY[7:])), "END", run=check_formats, fmts=("srec", "coco"))
    surround(w, (cat(s) for s in seqs(OPS, 3 if DEEP else 2)), "sequence with END", extra=FILES)


def main():
    c = Check("C24")
    c.explore(operands)
    c.explore(values)
    c.explore(notations)
    c.explore(after)
    c.explore(sequences, 4 if DEEP else 3)
    c.explore(defaults)
    c.bounds = ["%d operands of END x every place in a program, in each of two files or an include x 10 --exec settings x 5 formats" % len(ENDOPS), "%s EXEC values by END, --exec and both x 5 formats" % ("all 65536" if DEEP else "about 2100"), "7 notations x 4 spellings of --exec; 17 malformed", "all sequences of up to %d of %d kinds of line after END (malformed, unbalanced, unreadable)" % (3 if DEEP else 2, len(AFTER)), "all sequences of up to %d of %d kinds of line with END, split over two files at every place" % (4 if DEEP else 3, len(OPS)), "layouts of up to %d blocks without EXEC address" % (4 if DEEP else 3)]
    c.explore(surrounded)
    c.bounds.append(CTX % "END with every operand, all pairs of 13 kinds of line")
    c.finish()
